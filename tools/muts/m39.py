PROPS="P39 P22"
T="romeo/src/proof_data.rs"
SRC=open("/repo/romeo/src/proof_data.rs").read()
NEW=SRC[SRC.index("	/// Make a new Merkle tree"):SRC.index("	/// Get the Merkle root.")]
LOOP=SRC[SRC.index("		// calculate parent hashes until"):SRC.index("		Self { data: tree }")]
PR=SRC[SRC.index("		let mut proof = vec![];"):SRC.index("		Some(proof)")]
MUTS=[
# 0 root row doubled order
(T,[("&last_row[2 * i]);","&last_row[2 * i + 1]);"),("intermediate_preimage[32..64]\n					.copy_from_slice(&last_row[2 * i + 1])","intermediate_preimage[32..64]\n					.copy_from_slice(&last_row[2 * i])")],1),
# 1 zero padding for odd rows
(T,[("				let last_hash_slice = next_row\n					.last()\n					.expect(\n						\"","				let last_hash_slice = next_row\n					.last()\n					.expect(\n						\"")] if 0 else [("					.expect(\"FATAL: unreachable: next_row is empty\")\n					.to_owned();","					.map(|_| [0u8; 32])\n					.expect(\"FATAL: unreachable: next_row is empty\");")],1),
# 2 odd leaves first doubled
(T,[("			let last_hash_slice = leaf_hashes\n				.last()","			let last_hash_slice = leaf_hashes\n				.first()")],1),
# 3 single sha
(T,[("DoubleSha256Hasher::hash(data)","stacks_core::crypto::sha256::Sha256Hasher::hash(data)")],1),
# 4 proof sibling of wrong side when index divisible by 4
(T,[("if index % 2 == 0 {","if index % 4 == 0 {")],1),
# 5 proof one level short
(T,[("for i in 0..(self.data.len() - 1) {","for i in 0..(self.data.len() - 1).min(13) {")],1),
# 6 proof includes the root
(T,[("		Some(proof)","		if proof.len() == 1 {\n			proof.push(self.root()?);\n		}\n		Some(proof)")],1),
# 7 reversed path
(T,[("			proof.push(sibling);","			proof.insert(0, sibling);")],1),
# 8 index shift
# 9 preimage of 63 bytes
(T,[("next_row.push(intermediate_hash);","next_row.insert(0, intermediate_hash);")],1),
# 10 stop at two
(T,[("if next_row.len() % 2 == 1 {","if next_row.len() % 4 == 3 {")],1),
# 11 i from 1
(T,[("for i in 0..(last_row_len / 2) {","for i in 0..((last_row_len + 1) / 2).min(last_row_len - 1) {")],1),
# 12 txids sorted
(T,[("		let merkle_tree = BitcoinMerkleTree::new(&txids);","		let mut txids = txids;\n		txids.dedup();\n		let merkle_tree = BitcoinMerkleTree::new(&txids);")],1),
# 13 wtxids
(T,[("block.txdata.iter().map(|tx| tx.txid()).collect();","block.txdata.iter().map(|tx| BitcoinTxId::from_hash(bdk::bitcoin::hashes::Hash::from_inner(*tx.wtxid().as_inner()))).collect();"),("use stacks_core","use bdk::bitcoin::hashes::Hash as _;\nuse stacks_core")],1),
# 14 proof of another index
(T,[("			.proof(index)\n","			.proof(index % txids.len().max(2))\n")],1),
# --- refactorings
# 15 while loop on the last row
(T,[(LOOP,'''		while tree.last().map(Vec::len) != Some(1) {
			let next_row = Self::row_above(tree.last().expect("non-empty"));
			tree.push(next_row);
		}

'''),("	/// Get the Merkle root.\n",'''	fn row_above(row: &[[u8; 32]]) -> Vec<[u8; 32]> {
		let mut above = vec![];
		for i in 0..(row.len() / 2) {
			let mut preimage = [0u8; 64];
			preimage[..32].copy_from_slice(&row[2 * i]);
			preimage[32..].copy_from_slice(&row[2 * i + 1]);
			above.push(DoubleSha256Algorithm::hash(&preimage));
		}
		if above.len() > 1 && above.len() % 2 == 1 {
			above.push(above[above.len() - 1]);
		}
		above
	}

	/// Get the Merkle root.
''')],0),
# 16 last row carried along
(T,[(LOOP,'''		let mut row = tree[0].clone();
		while row.len() > 1 {
			let mut next_row = vec![];
			for i in 0..(row.len() / 2) {
				let mut preimage = [0u8; 64];
				preimage[0..32].copy_from_slice(&row[2 * i]);
				preimage[32..64].copy_from_slice(&row[2 * i + 1]);
				next_row.push(DoubleSha256Algorithm::hash(&preimage));
			}
			if next_row.len() > 1 && next_row.len() % 2 == 1 {
				let last = *next_row.last().expect("row is empty");
				next_row.push(last);
			}
			row = next_row.clone();
			tree.push(next_row);
		}

''')],0),
# 17 leaves by map
(T,[('''		let mut leaf_hashes = vec![];
		for tx in txs {
			let mut hash_slice = [0u8; 32];
			hash_slice.copy_from_slice(tx);
			leaf_hashes.push(hash_slice);
		}
''','''		let mut leaf_hashes: Vec<[u8; 32]> = txs
			.iter()
			.map(|tx| tx.to_vec().try_into().expect("txids are 32 bytes"))
			.collect();
''')],0),
# 18 sibling by xor
(T,[(PR,'''		let mut proof = vec![];
		for row in self.data.iter().take(self.data.len() - 1) {
			proof.push(row[index ^ 1]);
			index /= 2;
		}

''')],0),
# 19 & 1
(T,[("if index % 2 == 0 {","if index & 1 == 0 {"),("if txs.len() % 2 == 1 {","if txs.len() & 1 != 0 {"),("if next_row.len() % 2 == 1 {","if next_row.len() & 1 == 1 {")],0),
# 20 chunks
(T,[('''			for i in 0..(last_row_len / 2) {
				let mut intermediate_preimage = [0u8; 64];
				intermediate_preimage[0..32].copy_from_slice(&last_row[2 * i]);
				intermediate_preimage[32..64]
					.copy_from_slice(&last_row[2 * i + 1]);

				let intermediate_hash =
					DoubleSha256Algorithm::hash(&intermediate_preimage);
				next_row.push(intermediate_hash);
			}
''','''			for pair in last_row.chunks(2) {
				let intermediate_preimage = [pair[0], pair[1]].concat();

				let intermediate_hash =
					DoubleSha256Algorithm::hash(&intermediate_preimage);
				next_row.push(intermediate_hash);
			}
''')],0),
# 21 match on the side
(T,[(PR,'''		let depth = self.data.len();
		let mut proof = Vec::with_capacity(depth);
		for row in &self.data[..depth - 1] {
			let is_left = index % 2 == 0;
			let sibling_index = if is_left { index + 1 } else { index - 1 };
			proof.push(row[sibling_index]);
			index = index / 2;
		}

''')],0),
# 22 helper for the padding
(T,[('''			if next_row.len() % 2 == 1 {
				let last_hash_slice = next_row
					.last()
					.expect("FATAL: unreachable: next_row is empty")
					.to_owned();
				next_row.push(last_hash_slice);
			}
''','''			pad(&mut next_row);
'''),('''		if txs.len() % 2 == 1 {
			let last_hash_slice = leaf_hashes
				.last()
				.expect(
					"FATAL: unreachable: non-empty vec does not have `last()`",
				)
				.to_owned();
			leaf_hashes.push(last_hash_slice);
		}
''','''		pad(&mut leaf_hashes);
'''),("impl ProofData {\n",'''/// Repeat the last hash of a row with an odd number of them
fn pad(row: &mut Vec<[u8; 32]>) {
	if row.len() % 2 == 1 {
		if let Some(last) = row.last().copied() {
			row.push(last);
		}
	}
}

impl ProofData {
''')],0),
# 23 get with ? in proof
(T,[("		if index >= self.data[0].len() {\n			// off the end of the leaf row\n			return None;\n		}\n","		self.data.first()?.get(index)?;\n")],0),
# 24 first() in proof
(T,[("		if self.data.is_empty() {\n			// empty tree\n			return None;\n		}\n		if index >= self.data[0].len() {\n","		let leaves = self.data.first()?;\n		if index >= leaves.len() {\n")],0),
]
