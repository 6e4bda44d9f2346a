C="stacks-core/src/crypto/"
A="stacks-core/src/address.rs"
MUTS=[
("P12",C+"mod.rs","self.as_bytes()[0..CHECKSUM_LENGTH].try_into().unwrap()","self.as_bytes()[1..CHECKSUM_LENGTH+1].try_into().unwrap()",1),
("P12",C+"mod.rs","self.as_bytes()[0..CHECKSUM_LENGTH].try_into().unwrap()","{ let mut c=[0u8;CHECKSUM_LENGTH]; for (i,b) in self.as_bytes().iter().take(CHECKSUM_LENGTH).enumerate() { c[i]=*b; } c }",0),
("P12",C+"mod.rs","Hex(hex::encode(self.as_bytes()))","Hex(hex::encode_upper(self.as_bytes()))",1),
("P12",C+"hash160.rs","Ok(Self(bytes.try_into()?))","{ if bytes.len() < HASH160_LENGTH { return Err(StacksError::InvalidArguments(\"x\")) } Ok(Self(bytes[..HASH160_LENGTH].try_into()?)) }",1),
("P12",C+"hash160.rs","Ok(Self(bytes.try_into()?))","{ if bytes.len() != HASH160_LENGTH { return Err(StacksError::InvalidArguments(\"x\")) } let mut b=[0u8;HASH160_LENGTH]; b.copy_from_slice(bytes); Ok(Self(b)) }",0),
("P12",C+"sha256.rs","Self(Sha256Hashing::hash(Sha256Hashing::hash(data).as_bytes()))","{ let first=Sha256::digest(data); let second=Sha256::digest(first); Self(Sha256Hashing(second.into())) }",0),
("P12",A,"buff.push(key_hash_len as u8);","buff.push(key_hash_len as u8 + 1);",1),
("P12",A,"	script.push(key_count + 80);","	script.push(key_count.max(2) + 80);",1),
("P12",A,"		script.extend_from_slice(&bytes);\n		key_count += 1;","		for b in bytes { script.push(b); }\n		key_count += 1;",0),
("P12",A,"	builder = builder.push_int(key_counter);","	builder = builder.push_int(key_counter.min(15));",1),
]
