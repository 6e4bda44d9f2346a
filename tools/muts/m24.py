PROPS = "P24"
SC = "romeo/src/stacks_client.rs"; BC = "romeo/src/bitcoin_client.rs"; CF = "romeo/src/config.rs"; SY = "romeo/src/system.rs"; TK = "romeo/src/task.rs"
MUTS = [
 (SC, [("			Some(api_key) => {\n", "			Some(api_key) => {\n				debug!(\"using key {}\", api_key);\n")], 1),
 (SC, [("			Some(api_key) => {\n", "			Some(api_key) => {\n				trace!(?api_key);\n")], 1),
 (SC, [("		let request_url = request_builder().url().to_string();\n", "		let request_url = request_builder().url().to_string();\n		trace!(\"sending {:?}\", self.add_stacks_api_key(request_builder()).headers());\n")], 1),
 (SC, [("		let request_url = request_builder().url().to_string();\n", "		let request_url = request_builder().url().to_string();\n		trace!(\"client {:?}\", self.config);\n")], 1),
 (SC, [("		let request_url = request_builder().url().to_string();\n", "		let request_url = request_builder().url().to_string();\n		trace!(\"client {:?}\", self);\n")], 1),
 (SC, [("                request_url,\n                status,", "                format!(\"{}?key={}\", request_url, self.config.hiro_api_key.clone().unwrap_or_default()),\n                status,")], 1),
 (BC, [("return Err(anyhow::anyhow!(\"Username is empty\"));", "return Err(anyhow::anyhow!(\"Username is empty in {}\", url));")], 1),
 (BC, [("return Err(anyhow::anyhow!(\"Password is empty\"));", "return Err(anyhow::anyhow!(\"Password is empty, user {}\", username));")], 0),
 (BC, [("		url.set_username(\"\").unwrap();\n", "		trace!(\"bitcoin node {}\", url);\n		url.set_username(\"\").unwrap();\n")], 1),
 (BC, [("		url.set_username(\"\").unwrap();\n", "		trace!(\"password {}\", password);\n		url.set_username(\"\").unwrap();\n")], 1),
 (BC, [("		url.set_username(\"\").unwrap();\n", "		trace!(\"host {:?} port {:?}\", url.host_str(), url.port());\n		url.set_username(\"\").unwrap();\n")], 0),
 (BC, [("		let network = config.bitcoin_network;\n", "		let network = config.bitcoin_network;\n		trace!(\"wif {}\", config.bitcoin_credentials.wif_p2tr().to_string());\n")], 1),
 (BC, [("		let network = config.bitcoin_network;\n", "		let network = config.bitcoin_network;\n		trace!(\"key {}\", config.bitcoin_credentials.private_key_p2tr().display_secret());\n")], 1),
 (BC, [("		let network = config.bitcoin_network;\n", "		let network = config.bitcoin_network;\n		trace!(\"key {:?}\", config.bitcoin_credentials.private_key_p2tr().secret_bytes());\n")], 1),
 (BC, [("			&config.bitcoin_credentials.wif_p2tr().to_string(),\n		)?;", "			&config.bitcoin_credentials.wif_p2tr().to_string(),\n		)?;\n		trace!(\"key {}\", p2tr_private_key);")], 1),
 (BC, [("			&config.bitcoin_credentials.wif_p2tr().to_string(),\n		)?;", "			&config.bitcoin_credentials.wif_p2tr().to_string(),\n		)\n		.map_err(|e| anyhow!(\"{}: {}\", e, config.bitcoin_credentials.wif_p2tr().to_string()))?;")], 1),
 (BC, [("			&config.bitcoin_credentials.wif_p2tr().to_string(),\n		)?;", "			&config.bitcoin_credentials.wif_p2tr().to_string(),\n		)\n		.map_err(|e| anyhow!(\"bad key: {}\", e))?;")], 0),
 (CF, [("		let wallet = Wallet::new(&config_file.mnemonic)?;\n", "		let wallet = Wallet::new(&config_file.mnemonic)\n			.map_err(|e| anyhow::anyhow!(\"{}: {}\", config_file.mnemonic, e))?;\n")], 1),
 (CF, [("		let wallet = Wallet::new(&config_file.mnemonic)?;\n", "		let wallet = Wallet::new(&config_file.mnemonic)\n			.map_err(|e| anyhow::anyhow!(\"seed phrase: {}\", e))?;\n")], 0),
 (CF, [("		let wallet = Wallet::new(&config_file.mnemonic)?;\n", "		let wallet = Wallet::new(&config_file.mnemonic).expect(&config_file.mnemonic);\n")], 1),
 (CF, [("		let wallet = Wallet::new(&config_file.mnemonic)?;\n", "		let wallet = Wallet::new(&config_file.mnemonic)?;\n		let state_directory = state_directory;\n		println!(\"{:?}\", ConfigFile { state_directory: Default::default(), ..config_file.clone() });\n")], 1),
 (CF, [("		let wallet = Wallet::new(&config_file.mnemonic)?;\n", "		let wallet = Wallet::new(&config_file.mnemonic)?;\n		eprintln!(\"{:?}\", wallet);\n")], 1),
 (CF, [("		let wallet = Wallet::new(&config_file.mnemonic)?;\n", "		let wallet = Wallet::new(&config_file.mnemonic)?;\n		assert!(config_file.mnemonic.len() > 3, \"too short: {}\", config_file.mnemonic);\n")], 1),
 (CF, [("		let wallet = Wallet::new(&config_file.mnemonic)?;\n", "		let wallet = Wallet::new(&config_file.mnemonic)?;\n		assert!(config_file.mnemonic.split(' ').count() > 3, \"too short\");\n")], 0),
 (CF, [("		let wallet = Wallet::new(&config_file.mnemonic)?;\n", "		let wallet = Wallet::new(&config_file.mnemonic)?;\n		tracing::debug!(\"{} words\", config_file.mnemonic.split(' ').count());\n")], 0),
 (CF, [("		let bitcoin_node_url = Url::parse(&config_file.bitcoin_node_url)?;", "		let bitcoin_node_url = Url::parse(&config_file.bitcoin_node_url)\n			.map_err(|e| anyhow::anyhow!(\"{}: {}\", config_file.bitcoin_node_url, e))?;")], 1),
 (CF, [("		let bitcoin_node_url = Url::parse(&config_file.bitcoin_node_url)?;", "		use anyhow::Context;\n		let bitcoin_node_url = Url::parse(&config_file.bitcoin_node_url).context(\"bitcoin_node_url\")?;")], 0),
 (CF, [("		let bitcoin_node_url = Url::parse(&config_file.bitcoin_node_url)?;", "		use anyhow::Context;\n		let bitcoin_node_url = Url::parse(&config_file.bitcoin_node_url).with_context(|| format!(\"parsing {}\", config_file.bitcoin_node_url))?;")], 1),
 (CF, [("		let stacks_node_url = Url::parse(&config_file.stacks_node_url)?;", "		use anyhow::Context;\n		let stacks_node_url = Url::parse(&config_file.stacks_node_url).with_context(|| format!(\"parsing {}\", config_file.stacks_node_url))?;")], 0),

 (SY, [("	let (tx, mut rx) = mpsc::channel::<Event>(128);", "	tracing::debug!(?config);\n	let (tx, mut rx) = mpsc::channel::<Event>(128);")], 1),
 (SY, [("instrument(skip(config, bitcoin_client, stacks_client, result))", "instrument(skip(bitcoin_client, stacks_client, result))")], 1),
 (CF, [("		let wallet = Wallet::new(&config_file.mnemonic)?;\n", "		let wallet = Wallet::new(&config_file.mnemonic)?;\n		eprintln!(\"{}\", serde_json::to_string(&wallet).unwrap());\n")], 1),
 (CF, [("		let wallet = Wallet::new(&config_file.mnemonic)?;\n", "		let wallet = Wallet::new(&config_file.mnemonic)?;\n		let c = wallet.credentials(config_file.stacks_network, 0)?;\n		eprintln!(\"{}\", c.address());\n")], 0),
 (CF, [("		let wallet = Wallet::new(&config_file.mnemonic)?;\n", "		let wallet = Wallet::new(&config_file.mnemonic)?;\n		let c = wallet.credentials(config_file.stacks_network, 0)?;\n		eprintln!(\"{}\", serde_json::to_value(&c).unwrap());\n")], 1),
 (CF, [("		let wallet = Wallet::new(&config_file.mnemonic)?;\n", "		let wallet = Wallet::new(&config_file.mnemonic)?;\n		let c = wallet.credentials(config_file.stacks_network, 0)?;\n		tracing::info!(\"{}\", c.wif().to_string());\n")], 1),
]
