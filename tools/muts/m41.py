PROPS = "P41 P16 P15"
S = "romeo/src/system.rs"
SRC = open("/tmp/m/r/romeo/src/system.rs").read()
LOOP = SRC[SRC.index("		let mut r = BufReader::new(&mut file);"):SRC.index("		(Self(BufWriter::new(file)), state)")]
TEST = "			if line.last() != Some(&b'\\n') {\n				break;\n			}\n"
CUT = "		file.set_len(complete).await.unwrap();\n"
ADD = "			complete += line.len() as u64;\n"
ADDRAW = ADD
UPD = "			state.update(event, config);\n"
COMM = "			// A crash while an event was recorded leaves an incomplete last\n			// line. That event was not applied, and is cut off.\n"
DEC = "serde_json::from_slice(&line).unwrap();"
READ = "r.read_until(b'\\n', &mut line).await.unwrap() > 0"
OLD = '''		let mut r = BufReader::new(&mut file).lines();

		while let Some(line) = r.next_line().await.unwrap() {
			let event: Event = serde_json::from_str(&line).unwrap();

			state.update(event, config);
		}

'''
assert all(x in LOOP for x in (TEST, CUT, ADD, UPD, DEC, READ, COMM)), LOOP
def e(*p): return (S, list(p))
MUTS = [x[0] + (x[1],) for x in [
 (e((LOOP, OLD)), 1),
 (e((CUT, "")), 1),
 (e((TEST, "")), 1),
 (e((TEST, ""), (ADD, ADD + TEST)), 1),
 (e((ADD, ""), (COMM, ADD + COMM)), 1),
 (e((CUT, "		file.set_len(complete + 1).await.unwrap();\n")), 1),
 (e((CUT, "		if complete > 0 {\n			file.set_len(complete).await.unwrap();\n		}\n")), 1),
 (e((CUT, "		let _ = file.set_len(complete).await;\n")), 1),
 (e((CUT, "		let _ = file.set_len(complete);\n")), 1),
 (e(("			line.clear();\n", "")), 1),
 (e((DEC, "match serde_json::from_slice(&line) {\n				Ok(event) => event,\n				Err(_) => break,\n			};")), 1),
 (e((DEC, "match serde_json::from_slice(&line) {\n				Ok(event) => event,\n				Err(_) => {\n					line.clear();\n					continue;\n				}\n			};")), 1),
 (e((READ, "r.read_until(b'}', &mut line).await.unwrap() > 0")), 1),
 (e((ADD, "			complete += line.len() as u64 - 1;\n")), 1),
 (e((CUT, "		file.set_len(0).await.unwrap();\n")), 1),
 (e((CUT, ""), ("		let mut r = BufReader::new(&mut file);\n", "		file.set_len(0).await.unwrap();\n		let mut r = BufReader::new(&mut file);\n"), ), 1),
 (e(("				break;\n			}\n", "				state.update(serde_json::from_slice(&line).unwrap(), config);\n				break;\n			}\n")), 1),
 (e(("let mut complete = 0;", "let mut complete = 1;")), 1),
 (e((UPD, ""), (ADD, "			complete += line.len() as u64;\n			if complete > 1 {\n				state.update(event, config);\n			}\n")), 1),
 # the same otherwise
 (e((TEST, "			if !line.ends_with(b\"\\n\") {\n				break;\n			}\n")), 0),
 (e((TEST, "			if line.last().copied() != Some(b'\\n') {\n				break;\n			}\n")), 0),
 (e((TEST, "			match line.last() {\n				Some(b'\\n') => (),\n				_ => break,\n			}\n")), 0),
 (e((TEST, "			if !matches!(line.last(), Some(b'\\n')) {\n				break;\n			}\n")), 0),
 (e(("		while " + READ + " {\n", "		loop {\n			let read = r.read_until(b'\\n', &mut line).await.unwrap();\n			if read == 0 {\n				break;\n			}\n"), (ADD, "			complete += read as u64;\n")), 0),
 (e(("		while " + READ + " {\n", "		loop {\n			line.clear();\n			r.read_until(b'\\n', &mut line).await.unwrap();\n"), ("			line.clear();\n		}", "		}")), 0),
 (e(("		let mut line = Vec::new();\n", ""), ("		while " + READ + " {\n", "		loop {\n			let mut line = vec![];\n			if r.read_until(b'\\n', &mut line).await.unwrap() == 0 {\n				break;\n			}\n"), ("			line.clear();\n		}", "		}")), 0),
 (e((ADD, ""), (UPD, ADD + UPD)), 0),
 (e(("let mut complete = 0;", "let mut complete = 0usize;"), (ADD, "			complete += line.len();\n"), (CUT, "		file.set_len(complete as u64).await.unwrap();\n")), 0),
 (e((CUT, "		file.set_len(complete)\n			.await\n			.expect(\"Could not cut off an incomplete event\");\n")), 0),
 (e((DEC, "serde_json::from_slice(&line[..line.len() - 1]).unwrap();")), 0),
 (e((TEST, "			let Some(record) = line.strip_suffix(b\"\\n\") else {\n				break;\n			};\n"), (DEC, "serde_json::from_slice(record).unwrap();")), 0),
 (e(("		let mut line = Vec::new();\n", "		let mut line = String::new();\n"), (READ, "r.read_line(&mut line).await.unwrap() > 0"), (TEST, "			if !line.ends_with('\\n') {\n				break;\n			}\n"), (DEC, "serde_json::from_str(&line).unwrap();")), 0),
 (e(("let mut complete = 0;", "let mut complete = 0u64;"), (ADD, "			complete = complete + line.len() as u64;\n")), 0),
 (e((LOOP, "		let (state, complete) = replay(&mut file, config, state).await;\n\n" + CUT + "\n"), ("		mut state: state::State,\n	) -> (Self", "		state: state::State,\n	) -> (Self"), ("struct Storage(", "async fn replay(\n	file: &mut File,\n	config: &Config,\n	mut state: state::State,\n) -> (state::State, u64) {\n" + LOOP.replace(CUT, "").replace("BufReader::new(&mut file)", "BufReader::new(file)") + "	(state, complete)\n}\n\nstruct Storage(")), 0),
]]
