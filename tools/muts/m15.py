PROPS="P15 P16 P25"
S="romeo/src/system.rs"
C="romeo/src/stacks_client.rs"
B="romeo/src/bitcoin_client.rs"
REC="		storage.record(&event).await;\n\n		let tasks = state.update(event, &config);"
MUTS=[
# 0 update before record
(S,[(REC,"		let tasks = state.update(event.clone(), &config);\n		storage.record(&event).await;")],1),
# 1 no flush
(S,[("		self.0.flush().await.unwrap();\n","")],1),
# 2 no newline
(S,[('		self.0.write_all(b"\\n").await.unwrap();\n','')],1),
# 3 failed write ignored
(S,[("self.0.write_all(&bytes).await.unwrap();","let _ = self.0.write_all(&bytes).await;")],1),
# 4 failed flush ignored
(S,[("self.0.flush().await.unwrap();","self.0.flush().await.ok();")],1),
# 5 status updates not logged
(S,[("		storage.record(&event).await;\n","		if !matches!(event, Event::StacksTransactionUpdate(..)) {\n			storage.record(&event).await;\n		}\n")],1),
# 6 skip undecodable lines
(S,[("			let event: Event = serde_json::from_slice(&line).unwrap();\n\n			state.update(event, config);","			if let Ok(event) = serde_json::from_slice::<Event>(&line) {\n				state.update(event, config);\n			}")],1),
# 7 truncate
(S,[("			.append(true)","			.truncate(true)")],1),
# 8 different file per start
(S,[('config.state_directory.join("log.ndjson")','config.state_directory.join(format!("log-{:?}.ndjson", std::time::SystemTime::now()))')],1),
# 9 replay filters blocks
(S,[("			state.update(event, config);\n\n			complete","			if !matches!(event, Event::BitcoinBlock(..)) {\n				state.update(event, config);\n			}\n\n			complete")],1),
# 10 state reset after replay
(S,[("	let bootstrap_tasks = state.bootstrap();","	state = state::State::new();\n	let bootstrap_tasks = state.bootstrap();")],1),
# 11 bootstrap before replay result (only first task spawned)
(S,[("		for task in tasks {","		for task in tasks.into_iter().take(8) {")],1),
# 12 skip(1) bootstrap
(S,[("	for task in bootstrap_tasks {","	for task in bootstrap_tasks.into_iter().skip(1) {")],1),
# 13 spawn lost: only when strict
(S,[("		for task in tasks {","		for task in tasks.into_iter().filter(|_| config.strict) {")],1),
# 14 result dropped
(S,[('		result.send(event).await.expect("Failed to return event");','		if let Event::BitcoinTransactionUpdate(..) = event {\n			return;\n		}\n		result.send(event).await.expect("Failed to return event");')],1),
# 15 burn reports mint
(S,[("Event::BurnBroadcasted(withdrawal_info, DUMMY_STACKS_ID)","Event::FulfillBroadcasted(withdrawal_info, bdk::bitcoin::hashes::Hash::all_zeros())")],1),
# 16 strict inverted
(S,[("			if config.strict {\n				panic!(\n					\"Unable to sign and broadcast the burn","			if !config.strict {\n				panic!(\n					\"Unable to sign and broadcast the burn")],1),
# 17 block height + 1 reported
(B,[("		Ok((block_height, block))","		Ok((block_height + 1, block))")],1),
# 18 wrong block fetched
(B,[("client.get_block_hash(block_height as u64)","client.get_block_hash(block_height as u64 + 1)")],1),
# 19 stacks block off
(S,[("	Event::StacksBlock(block_height, txs)","	Event::StacksBlock(block_height + 1, txs)")],1),
# 20 burn height key
(C,[('res["burn_block_height"].as_u64()','res["height"].as_u64()')],1),
# 21 only the first 100 txs
(C,[("		for id in tx_ids {","		for id in tx_ids.into_iter().take(100) {")],1),
# 22 skip failed tx
(C,[("			let tx = self.get_transaction(id).await?;\n			txs.push(tx);","			if let Ok(tx) = self.get_transaction(id).await {\n				txs.push(tx);\n			}")],1),
# 23 contract address of another name
(S,[(".get_contract_block_height(config.contract_name.clone())",'.get_contract_block_height("asset".into())')],1),
# 24 second height asked of wrong block
(S,[("		.get_bitcoin_block_height(block_height)","		.get_bitcoin_block_height(block_height + 1)")],1),
# 25 swapped heights
(S,[("Event::ContractBlockHeight(block_height, bitcoin_block_height)","Event::ContractBlockHeight(bitcoin_block_height, block_height)")],1),
# 26 replay spawns nothing but records again
(S,[("			state.update(event, config);\n\n			complete","			state.update(event.clone(), config);\n			if let Event::StacksBlock(..) = event { state.update(event, config); }\n\n			complete")],1),
# 27 skip field in log
("romeo/src/state.rs",[("	/// Height of the Bitcoin blockchain where this deposit transaction exists\n	pub block_height: u32,","	/// Height of the Bitcoin blockchain where this deposit transaction exists\n	#[serde(skip)]\n	pub block_height: u32,")],1),
# 28 time in update
("romeo/src/state.rs",[("	pub fn update(&mut self, event: Event, config: &Config) -> Vec<Task> {","	pub fn update(&mut self, event: Event, config: &Config) -> Vec<Task> {\n		if std::time::SystemTime::now().elapsed().is_err() {\n			return vec![];\n		}")],1),
# 29 reported twice
(S,[('		result.send(event).await.expect("Failed to return event");','		result.send(event.clone()).await.expect("Failed to return event");\n		result.send(event).await.expect("Failed to return event");')],1),
# 30 write instead of write_all
(S,[("self.0.write_all(&bytes).await.unwrap();","let _ = self.0.write(&bytes).await.unwrap();")],1),
# 31 in-memory log first 
(S,[("		let mut r = BufReader::new(&mut file);","		let mut r = BufReader::new(&mut file);\n		let mut first = String::new();\n		r.read_line(&mut first).await.unwrap();")],1),
]
