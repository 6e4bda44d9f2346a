PROPS="P15 P16 P25"
S="romeo/src/system.rs"
C="romeo/src/stacks_client.rs"
B="romeo/src/bitcoin_client.rs"
MUTS=[
# 0 one buffer with newline pushed
(S,[("		let bytes = serde_json::to_vec(event).unwrap();\n		self.0.write_all(&bytes).await.unwrap();\n		self.0.write_all(b\"\\n\").await.unwrap();","		let mut bytes = serde_json::to_vec(event).unwrap();\n		bytes.push(b'\\n');\n		self.0.write_all(&bytes).await.unwrap();")],0),
# 1 format!
(S,[("		let bytes = serde_json::to_vec(event).unwrap();\n		self.0.write_all(&bytes).await.unwrap();\n		self.0.write_all(b\"\\n\").await.unwrap();","		let line = format!(\"{}\\n\", serde_json::to_string(event).unwrap());\n		self.0.write_all(line.as_bytes()).await.unwrap();")],0),
# 2 helper for spawning all
(S,[("""	for task in bootstrap_tasks {
		spawn(
			config.clone(),
			bitcoin_client.clone(),
			stacks_client.clone(),
			task,
			tx.clone(),
		);
	}
""","""	spawn_all(&config, &bitcoin_client, &stacks_client, bootstrap_tasks, &tx);
"""),("""		for task in tasks {
			spawn(
				config.clone(),
				bitcoin_client.clone(),
				stacks_client.clone(),
				task,
				tx.clone(),
			);
		}
	}
}
""","""		spawn_all(&config, &bitcoin_client, &stacks_client, tasks, &tx);
	}
}

fn spawn_all(
	config: &Config,
	bitcoin_client: &BitcoinClient,
	stacks_client: &LockedClient,
	tasks: Vec<Task>,
	tx: &mpsc::Sender<Event>,
) {
	tasks.into_iter().for_each(|task| {
		spawn(config.clone(), bitcoin_client.clone(), stacks_client.clone(), task, tx.clone());
	});
}
""")],0),
# 3 loop instead of while let
(S,[("	while let Some(event) = rx.recv().await {","	loop {\n		let event = match rx.recv().await {\n			Some(event) => event,\n			None => break,\n		};")],0),
# 4 record inlined name + match errors
(S,[("		self.0.flush().await.unwrap();","		if let Err(e) = self.0.flush().await {\n			panic!(\"cannot flush: {}\", e);\n		}")],0),
# 5 replay with match loop
(S,[("		while r.read_until(b'\\n', &mut line).await.unwrap() > 0 {\n","		loop {\n			if r.read_until(b'\\n', &mut line).await.unwrap() == 0 {\n				break;\n			}\n")],0),
# 6 run_task inlined in spawn partly
(S,[("		let event =\n			run_task(&config, bitcoin_client, stacks_client, task).await;\n","		let outcome = run_task(&config, bitcoin_client, stacks_client, task);\n		let event = outcome.await;\n")],0),
# 7 shared contract call helper
(S,[("	let (height, block) = client\n		.get_block(block_height)\n		.await\n		.expect(\"Failed to fetch bitcoin block\");\n\n	Event::BitcoinBlock(height, block)","	let fetched = client.get_block(block_height).await;\n	match fetched {\n		Ok((height, block)) => Event::BitcoinBlock(height, block),\n		Err(err) => panic!(\"Failed to fetch bitcoin block: {:?}\", err),\n	}")],0),
# 8 get_block pushes via iterator of futures: plain loop over indices
(C,[("		for id in tx_ids {\n			let tx = self.get_transaction(id).await?;\n			txs.push(tx);\n		}","		for i in 0..tx_ids.len() {\n			txs.push(self.get_transaction(tx_ids[i]).await?);\n		}")],0),
# 9 url helper
(C,[("	fn transaction_url(&self) -> reqwest::Url {\n		self.config\n			.stacks_node_url\n			.join(\"/v2/transactions\")\n			.unwrap()\n	}","	fn node_url(&self, path: &str) -> reqwest::Url {\n		self.config.stacks_node_url.join(path).unwrap()\n	}\n\n	fn transaction_url(&self) -> reqwest::Url {\n		self.node_url(\"/v2/transactions\")\n	}")],0),
# 10 match in mint
(S,[("	match stacks_client.lock().await.sign_and_broadcast(tx).await {\n		Ok(txid) => Event::MintBroadcasted(deposit_info, txid),\n		Err(err) => {\n			if config.strict {","	let outcome = stacks_client.lock().await.sign_and_broadcast(tx).await;\n	let strict = config.strict;\n	match outcome {\n		Ok(txid) => Event::MintBroadcasted(deposit_info, txid),\n		Err(err) => {\n			if strict {")],0),
# 11 path in a const
(S,[('config.state_directory.join("log.ndjson")','config.state_directory.join(LOG_FILE)'),("struct Storage(","const LOG_FILE: &str = \"log.ndjson\";\n\nstruct Storage(")],0),
]
