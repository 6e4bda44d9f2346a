"""The properties: one source for properties.jsonl and MANIFEST.json (python3 lib/catalog.py writes both)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CS, SC, OR_ = "stacks-core/src/", "sbtc-core/src/operations/", "sbtc-core/src/operations/op_return/"
CA = "romeo/asset-contract/contracts/"
CLAR = "enumeration of the paths of Clarity functions into tables of literals, effects and results (own parser), "
MIR = "abstract interpretation of rustc MIR into canonical value-flow terms (custom rustc driver), "


def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=(), observe=(), level="other"):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, state=state, observe=observe, level=level)


ENGINE_NOTE = "Sound up to the analyser's models of the standard library and of the Bitcoin/secp256k1 crates (listed in the evidence); loops are summarised, not unrolled."

CLARNOTE = "Complete over the paths of the sources (Clarity has no recursion; folds are read as one symbolic step); rests on the models of the Clarity functions the contracts use."

RS = "romeo/src/"
RSYS = [RS + "system.rs"]
RST = [RS + "state.rs", RS + "event.rs", RS + "task.rs"]
ROMEO = "compiled against API stand-ins for the dependencies that are not available offline, "
ROMEONOTE = "Inductive over single transitions: every event on every well formed state. Rests on the analyser's models of iterators and options and on the API stand-ins for the missing Stacks and BDK crates (types and signatures only; their functions stay uninterpreted)."
RSTATE = [("relayer state", "stage, heights of both chains, recorded deposits and withdrawals with the stage of each request", RS + "state.rs")]

PROPS = [
    P("P01", "Hostile input is refused with an error, never with a panic",
      "Bytes, strings and Bitcoin transactions from outside - binary encodings, addresses, principals, contract names, hashes, big integers, wallet import keys, mnemonics and deposit or withdrawal transactions - are either read or refused with an error. No input whatever makes a decoder or parser panic or index out of range.",
      ["inputs"], "every byte string, text, transaction and stream",
      "Tests feed valid input and a few invalid samples; a panic hides behind one particular length, tag or character, and takes down whoever scans the chain.",
      [CS + "codec.rs", CS + "address.rs", CS + "c32.rs", CS + "contract_name.rs", CS + "utils.rs", CS + "uint.rs", CS + "crypto/*.rs", CS + "wallet.rs", OR_ + "deposit.rs", OR_ + "withdrawal_request.rs", OR_ + "withdrawal_fulfillment.rs", "sbtc-core/src/operations/commit_reveal/*.rs"],
      [("binary readers", CS + "codec.rs"), ("text readers", CS + "c32.rs"), ("transaction parsers", OR_ + "*.rs")],
      MIR + "every panic site (index, slice, arithmetic, unwrap, assert, length mismatch) reachable from a decoder is an obligation, discharged from the conditions that guard it", ENGINE_NOTE),
    P("P02", "Wire codecs: writer and reader agree with each other and with the format",
      "For every value of every type with a binary wire form, reading the written bytes gives the value back and consumes exactly those bytes. The bytes are the documented ones: fixed width big-endian integers, type prefixes, length prefixes, version, hash and signature bytes in the documented order and with the documented tag values.",
      ["inputs"], "every value of every encodable type, every following byte",
      "The tests encode a handful of values of some types; they cannot reach all the values, all variants of all types, or trailing bytes after the value.",
      [CS + "codec.rs", CS + "address.rs", CS + "contract_name.rs", CS + "uint.rs", CS + "utils.rs", OR_ + "deposit.rs", OR_ + "withdrawal_request.rs", OR_ + "withdrawal_fulfillment.rs", "sbtc-core/src/operations/commit_reveal/deposit.rs", "sbtc-core/src/operations/commit_reveal/withdrawal_request.rs"],
      [("Codec implementations", CS + "codec.rs"), ("operation data", OR_ + "*.rs"), ("opcode table", SC + "mod.rs")],
      MIR + "composition of the reader's summary with the writer's summary", ENGINE_NOTE),
    P("P03", "Operations are recognised exactly when their on-chain marker is right",
      "A Bitcoin transaction is taken for an sBTC deposit or withdrawal request only if its first output is an OP_RETURN followed by one push whose data starts with the magic bytes of the network asked for and the operation's opcode. A transaction that has this marker, the outputs the operation needs, and well formed data is always recognised.",
      ["inputs"], "every transaction, every network",
      "The tests parse a few well formed transactions; a marker check that is skipped, loosened or tightened shows only on transactions they do not contain.",
      [OR_ + "deposit.rs", OR_ + "withdrawal_request.rs", OR_ + "utils.rs", SC + "mod.rs"],
      [("Deposit::parse", OR_ + "deposit.rs"), ("try_parse_withdrawal_request", OR_ + "withdrawal_request.rs"), ("magic_bytes", OR_ + "utils.rs")],
      MIR + "implication between the acceptance condition and the documented marker", ENGINE_NOTE),
    P("P04", "A withdrawal is attributed only to the key that signed that very withdrawal",
      "The account a withdrawal request is charged to is the single signature address, on the network parsed for, of the public key recovered from the request's own signature over the documented message made of the request's own amount and its own payee. A signer signs that same message, so the request it makes is charged to its own account, and a request from whose signature no key can be recovered is refused.",
      ["inputs"], "every transaction, amount, payee, key and network",
      "Tests check one signature; a message that leaves out the amount or the payee, or takes them from elsewhere, passes them as well.",
      [OR_ + "withdrawal_request.rs", CS + "address.rs", CS + "crypto/mod.rs"],
      [("recover_drawee / message construction", OR_ + "withdrawal_request.rs"), ("StacksAddress::p2pkh", CS + "address.rs")],
      MIR + "provenance and identity of the recovered, signed and documented message terms", ENGINE_NOTE),
    P("P05", "Parsed operations report the amounts and parties of their own transaction",
      "Every field of a parsed deposit or withdrawal request is the one at its documented place of that same transaction: amounts are output values or decoded data, the sBTC wallet and the payee are the addresses of their outputs on the network asked for, and the recipient is decoded from the marker's data. No field comes from another output, another field or a constant.",
      ["inputs"], "every transaction, every network",
      "The test transactions have few outputs and similar values, so a field read from the wrong place can look right.",
      [OR_ + "deposit.rs", OR_ + "withdrawal_request.rs"],
      [("Deposit::parse", OR_ + "deposit.rs"), ("WithdrawalRequest parsing", OR_ + "withdrawal_request.rs")],
      MIR + "provenance of each field as a term over the transaction", ENGINE_NOTE),
    P("P06", "Built transactions carry exactly the documented outputs, first and in order",
      "A deposit, withdrawal request or fulfilment transaction starts with the documented outputs in the documented order (marker, payee or wallet, amounts as asked for), keeps every other output the wallet added, and is returned signed by the wallet it was built from. Amounts below the dust limit of their script are refused, and parsing a built transaction gives back what was asked for.",
      ["inputs", "configurations"], "every amount, address, recipient, key, network and every set of outputs the wallet library returns in any order",
      "Building needs a funded wallet, so the tests cover only the pieces; the order of the outputs depends on the wallet library's shuffling.",
      [OR_ + "deposit.rs", OR_ + "withdrawal_request.rs", OR_ + "withdrawal_fulfillment.rs", OR_ + "utils.rs"],
      [("build_deposit_transaction / deposit", OR_ + "deposit.rs"), ("build_withdrawal_tx", OR_ + "withdrawal_request.rs"), ("build_withdrawal_fulfillment_tx", OR_ + "withdrawal_fulfillment.rs"), ("reorder_outputs", OR_ + "utils.rs")],
      MIR + "outputs as terms, permutation rule for the reordering, parser composed with builder", ENGINE_NOTE),
    P("P07", "Address and principal texts say exactly the version, hash and contract name",
      "The text of an address is `S`, the character of its version, and the base-32 digits of its 20 hash bytes followed by the first four bytes of the double SHA-256 of the version and the hash; a text is accepted as an address exactly when it is of that form (any case, `O` read as `0`, `I` and `L` as `1` after the first character), and gives that version and hash. A principal's text is an address, or an address and a contract name around a single dot, and gives a principal of exactly those parts. (The base conversion of long digit strings itself is taken as given.)",
      ["inputs"], "every version and hash, every text",
      "Tests try a few addresses; a checksum over other bytes, a loosened length, an ignored part after a dot or another digit value passes them.",
      [CS + "c32.rs", CS + "address.rs", CS + "utils.rs"], [("c32 addresses", CS + "c32.rs"), ("StacksAddress text forms", CS + "address.rs"), ("PrincipalData::try_from", CS + "utils.rs")],
      MIR + "acceptance condition and text compared with the documented form; digit tables folded character by character", ENGINE_NOTE),
    P("P08", "A contract name in hand is always a valid contract name",
      "However a contract name is made (from text, from bytes, by any public function), its text is 1 to 40 characters, starting with a letter and going on with letters, digits, hyphens and underscores, or is `__transient`; every such text is accepted and kept unchanged, and every other one is refused.",
      ["inputs"], "every text and byte string",
      "Tests try a few names; a character class that is too wide, an off-by-one length, a pattern without its anchors or a way around the check passes them.",
      [CS + "contract_name.rs"], [("ContractName", CS + "contract_name.rs")],
      MIR + "every construction site guarded by the pattern; the pattern's language compared with the documented one as automata", ENGINE_NOTE),
    P("P09", "Wallet import strings accept and mean exactly the documented 38 bytes",
      "A wallet import string is accepted exactly when it decodes to 38 bytes: the prefix of a known network, a valid private key, the compressed-key byte 1, and the first four bytes of the double SHA-256 of the preceding 34. The network and key reported for an accepted string are those bytes, and the string made from a network and a key is the documented one, which reads back as the same network and key.",
      ["inputs"], "every byte string, every text, every network and private key",
      "Two or three sample strings are tested; a checksum that leaves out a byte, a loosened length or an unchecked key passes them.",
      [CS + "crypto/wif.rs", CS + "crypto/mod.rs"], [("WIF", CS + "crypto/wif.rs")],
      MIR + "acceptance condition and value compared with the documented layout; constructor composed with parser", ENGINE_NOTE),
    P("P10", "Each wallet credential comes from its own documented key and network",
      "A wallet's master key is the one of the seed of its mnemonic with the empty passphrase, and the private key of every role (Stacks; Bitcoin P2PKH, P2WPKH, P2TR) at an index is derived from it along the documented path of that role, network and index. The public key, address and import string reported for a role are those of that role's own private key on the network asked for. A random wallet is made from 32 fresh random bytes.",
      ["inputs", "configurations"], "every mnemonic, network and account index",
      "Tests compare one mnemonic at one index; a path that forgets the index or the network, or roles that swap keys, show only elsewhere.",
      [CS + "wallet.rs"], [("Wallet, Credentials, BitcoinCredentials", CS + "wallet.rs"), ("derivation paths", CS + "wallet.rs")],
      MIR + "provenance of each credential as a term over mnemonic, index and network", ENGINE_NOTE),
    P("P11", "A write is complete or reported; binary forms never panic",
      "Writing a value to a destination that refuses a write, or takes only a part of it, gives an error and not a success; on success the destination received exactly the encoding. Writing valid values never panics, and the byte forms of big integers are their exact little-endian and big-endian bytes.",
      ["inputs", "fault_sequences"], "every value, every destination and every failure of it",
      "Tests write to vectors, which never fail and take everything; short and refused writes are never exercised.",
      [CS + "codec.rs", CS + "address.rs", CS + "contract_name.rs", CS + "utils.rs", CS + "uint.rs", OR_ + "deposit.rs", OR_ + "withdrawal_request.rs", OR_ + "withdrawal_fulfillment.rs", "sbtc-core/src/operations/commit_reveal/*.rs"],
      [("binary writers", CS + "codec.rs"), ("byte forms of big integers", CS + "uint.rs")],
      MIR + "writers run on an unknown destination whose every write may fail or be short; success must imply all of them succeeded whole", ENGINE_NOTE),
    P("P12", "Hashes and address hashes are the documented digests of exactly their input",
      "Each hash type is the documented composition of digests of the whole input; its checksum is its first four bytes; its byte, hexadecimal and serialised forms are its bytes, and decoding accepts exactly the documented length and keeps the bytes. The hash in an address is the one documented for its kind: hash160 of the compressed key, of the witness program of the key, or of the script `threshold, keys in order, number of keys, CHECKMULTISIG`, plain or as a witness program.",
      ["inputs"], "every byte string, every key, every list of up to 16 keys and threshold",
      "Tests hash a few strings and keys; truncated or skipped input, another order of the keys or another count appears only for others.",
      [CS + "crypto/mod.rs", CS + "crypto/hash160.rs", CS + "crypto/sha256.rs", CS + "address.rs"],
      [("hash types", CS + "crypto/*.rs"), ("StacksAddress p2pkh / p2sh / p2wpkh / p2wsh", CS + "address.rs")],
      MIR + "digest terms compared with the documented composition, loops over keys summarised as sequences", ENGINE_NOTE),
    P("P13", "A commit address locks exactly what its reveal transaction reveals",
      "The address of a committed deposit or withdrawal request is the pay-to-taproot address of the key nobody can sign for and of exactly two scripts: `operation data, DROP, revealer key, CHECKSIG` and `reclaim key, CHECKSIG`. The reveal transaction made from the same data and keys spends only the commit output, without any time lock, through the first of these scripts with its own control block; it carries the marker `magic bytes, w` first and then pays the committed amount less the fees, and the fulfilment fee, to the parties the operation names.",
      ["inputs"], "every operation, amount, fee, key and address",
      "No test covers the commit-reveal scheme; keys that are swapped, another script or other data on one side lock the funds without any error.",
      ["sbtc-core/src/operations/commit_reveal/utils.rs", "sbtc-core/src/operations/commit_reveal/deposit.rs", "sbtc-core/src/operations/commit_reveal/withdrawal_request.rs"],
      [("commit / reveal", "sbtc-core/src/operations/commit_reveal/utils.rs"), ("deposit and withdrawal constructors", "sbtc-core/src/operations/commit_reveal/*.rs")],
      MIR + "script tree read off the taproot builder's value; commit, reveal and documented scripts compared as terms", ENGINE_NOTE),
    P("P14", "Networks, address versions and protocol markers follow the published tables",
      "Every conversion that names a network or an address version follows the published tables: Bitcoin mainnet corresponds to Stacks mainnet and every other Bitcoin network to testnet (and back), the address version bytes are 22, 20, 26 and 21, and the magic bytes and operation codes are the documented ones. A network's name is read without regard to case, is written in lower case and reads back as the same network, in text and when serialised; anything else is refused.",
      ["inputs"], "every network, version, byte and text",
      "Tests cover single names and bytes; what is accepted beyond them, and how the tables agree with each other, is not tested.",
      [CS + "lib.rs", CS + "address.rs", SC + "mod.rs", OR_ + "utils.rs"], [("Network conversions", CS + "lib.rs"), ("AddressVersion", CS + "address.rs"), ("magic bytes and opcodes", SC + "mod.rs")],
      MIR + "conversion summaries compared case by case with the tables", ENGINE_NOTE),
    P("P26", "Generated credentials are printed under their own label",
      "What the command line tool prints under a label is the credential of that name (private key, public key, address, import string; of its own role), for the account index it is listed under, from the wallet the command was asked for and on the network asked for. All the account indices asked for are printed, each once.",
      ["inputs", "configurations"], "every mnemonic, network, number of accounts and both sub-commands",
      "No test runs the command; swapped labels or roles all print plausible strings.",
      ["sbtc-cli/src/commands/generate.rs", CS + "wallet.rs"], [("generate", "sbtc-cli/src/commands/generate.rs")],
      MIR + "printed value expanded to a tree of labels, each compared with the accessor of that name", ENGINE_NOTE),
    P("P27", "Only its owner can change the token contract, apart from holders' transfers",
      "Minting, burning, storing the wallet's public key and handing over the ownership succeed only when the immediate caller of the token contract is its current owner, and are refused with an error to everyone else, including contracts that the owner merely calls. The first owner is the deployer, the owner changes only to the account the owner names, and the wallet key to the key the owner gives.",
      ["inputs", "histories"], "every caller, sender, argument and contract state",
      "The contract's tests run a few calls by two wallets (and cannot run without network); a caller check on one more path, or for a contract in between, is not among them.",
      [CA + "asset.clar"], [("is-contract-owner", CA + "asset.clar"), ("set-contract-owner", CA + "asset.clar")],
      CLAR + "each path of each public function whose effects stay carries the comparison of the stored owner with the caller", CLARNOTE),
    P("P28", "A Bitcoin transaction mints or burns at most once, and only when proven",
      "Tokens are minted or burned only with an accepted inclusion proof for the very transaction, height, header, position and hashes given, and only if that transaction has never minted or burned before. Each mint or burn changes the given account by the given amount, records the transaction with that amount (negative for a burn), announces it, and records are never changed or removed.",
      ["inputs", "histories"], "every argument and every history of calls",
      "The tests repeat one transaction in a few orders; double use shows only for a particular history of mints and burns.",
      [CA + "asset.clar"], [("mint and burn", CA + "asset.clar"), ("amounts-by-btc-tx", CA + "asset.clar")],
      CLAR + "literals, writes and token effect of each minting or burning path compared argument by argument", CLARNOTE),
    P("P29", "Balances move only by their holder, and the token reports them truthfully",
      "A transfer succeeds only when the account it takes from is the sender of the transaction or the immediate caller, moves just the given amount to the given recipient, and such a transfer is refused only when the token itself refuses it. Nothing but mint and burn changes the supply, which is capped at 21 million bitcoin in satoshis, and balances, supply, decimals (8), names, the owner, the wallet key and the amount recorded for a transaction are reported as they are.",
      ["inputs", "histories"], "every caller, argument and contract state",
      "The tests transfer between two wallets; an extra way to move tokens shows only to who knows it.",
      [CA + "asset.clar"], [("transfer", CA + "asset.clar"), ("read-only functions", CA + "asset.clar")],
      CLAR + "every token effect and every getter's result compared with the arguments", CLARNOTE),
    P("P30", "The contracts deployed check proofs against the real burn chain, as tested",
      "Every deployment plan publishes the verification contract, before the token contract and under the name the token contract calls, in a version that nobody can write to and that takes block hashes from the burn chain alone. Apart from where block hashes come from, that version decides proofs as the version the tests run.",
      ["inputs", "configurations"], "every plan, caller and argument",
      "The tests run the debug version, where anyone can store block hashes; nothing they run is what is deployed.",
      ["romeo/asset-contract/deployments/default.testnet-plan.yaml", "romeo/asset-contract/deployments/default.devnet-plan.yaml", CA + "clarity-bitcoin-mini-deploy.clar", CA + "clarity-bitcoin-mini.clar"],
      [("plans", "romeo/asset-contract/deployments/*.yaml"), ("debug mode", CA + "clarity-bitcoin-mini.clar")],
      CLAR + "plans resolved to sources, effect analysis of the published source, both versions decided against the documented proof check", CLARNOTE),
    P("P31", "The command line does exactly what its options say",
      "The deposit and withdrawal sub-commands hand the amount, fee, network, recipient, payee, sBTC wallet and keys given as options to the library unaltered and each in its own role, with a wallet of the given key that was synchronised with the given node. They print the id and hexadecimal form of exactly the signed transaction the library built and broadcast nothing; the broadcast sub-command sends exactly the transaction it was given, once, to the node it was given, and prints its id.",
      ["inputs", "configurations"], "every combination of options",
      "No test runs the command line tool; a swapped address, amount or key still builds a valid transaction.",
      ["sbtc-cli/src/main.rs", "sbtc-cli/src/commands/deposit.rs", "sbtc-cli/src/commands/withdraw.rs", "sbtc-cli/src/commands/broadcast.rs", "sbtc-cli/src/commands/utils.rs"],
      [("sub-commands", "sbtc-cli/src/commands/*.rs"), ("dispatch", "sbtc-cli/src/main.rs")],
      MIR + "arguments of library calls and printed values, as terms over the parsed options, compared with the option of that name", ENGINE_NOTE),
    P("P32", "Binary decoding accepts only complete, canonical encodings",
      "Whatever bytes a binary decoder accepts, what it consumed is exactly the encoding of the value it returned: no value is accepted from truncated input, from unused tag or flag values, or in a second spelling.",
      ["inputs"], "every byte string, every decodable type",
      "Tests decode bytes that the encoder made; they cannot show that nothing else is accepted.",
      [CS + "codec.rs", CS + "address.rs", CS + "contract_name.rs", CS + "uint.rs", CS + "utils.rs", OR_ + "deposit.rs", OR_ + "withdrawal_request.rs", OR_ + "withdrawal_fulfillment.rs"],
      [("Codec implementations", CS + "codec.rs"), ("operation data", OR_ + "*.rs")],
      MIR + "writer's summary composed with the reader's summary on arbitrary bytes", ENGINE_NOTE),
    P("P33", "The command line reports failure, and prints results only after success",
      "When anything a sub-command of the command line tool needs fails - reading an option, the node, the wallet, the library, the broadcast, the output - the tool ends with an error status. A result is printed only once everything before it has succeeded, a sub-command that ends well has printed its result, and no option value makes deposit, withdraw or broadcast panic.",
      ["inputs", "fault_sequences"], "every option value and every failure of what the tool calls",
      "No test runs the command line tool, let alone against a node that refuses.",
      ["sbtc-cli/src/main.rs", "sbtc-cli/src/commands/deposit.rs", "sbtc-cli/src/commands/withdraw.rs", "sbtc-cli/src/commands/broadcast.rs", "sbtc-cli/src/commands/generate.rs"],
      [("sub-commands", "sbtc-cli/src/commands/*.rs"), ("dispatch", "sbtc-cli/src/main.rs")],
      MIR + "outcome of every fallible call followed to the exit status and to every write to the standard output", ENGINE_NOTE),
    P("P34", "Inclusion proofs are accepted exactly as documented",
      "The verification contract accepts a proof only if the double SHA-256 of the given header is the burn chain's block hash at the given height, and hashing the given transaction id with all the given hashes, each on the side the corresponding bit of the given position says, ends in the Merkle root inside that header. A proof of one to fourteen hashes for which this holds is accepted.",
      ["inputs"], "every height, transaction id, header, position and list of hashes",
      "The tests check a handful of blocks; forged proofs with a wrong side, too few hashes, or an inner value as transaction id are not among them.",
      [CA + "clarity-bitcoin-mini-deploy.clar"], [("was-txid-mined", CA + "clarity-bitcoin-mini-deploy.clar"), ("inner-merkle-proof-verify", CA + "clarity-bitcoin-mini-deploy.clar")],
      CLAR + "acceptance condition, and one symbolic step of the Merkle fold as its induction step", CLARNOTE),
    P("P17", "Each mint, burn and payout is ordered at most once, for its own request",
      "Whatever events arrive in whatever order, a recorded deposit is handed to minting at most once, and a recorded withdrawal to burning and to payout at most once each, always with exactly the recorded data of that deposit or withdrawal. A broadcast acknowledgement is noted only on the deposit or withdrawal it names, no recorded deposit or withdrawal is changed or dropped, and none goes back to an earlier stage.",
      ["histories", "schedules"], "every sequence of events, every number and state of recorded deposits and withdrawals",
      "The unit tests of the relayer's state run a few events on one deposit; a double payout needs a particular event while a request is in a particular stage.",
      RST, [("transition function", RS + "state.rs")],
      MIR + ROMEO + "transition table over every event and every class a request can be in", ROMEONOTE, state=RSTATE),
    P("P18", "Bitcoin is paid out only after the burn of the same withdrawal is confirmed",
      "The payout of a withdrawal is ordered only once the burn of that very withdrawal has been reported confirmed on the Stacks chain, with the withdrawal's own recorded data. A burn counts as confirmed only when a report for the transaction id of that burn says so.",
      ["histories", "schedules"], "every sequence of events, every number and state of recorded withdrawals",
      "The tests confirm the one burn there is; they hold no second withdrawal whose burn is rejected or still pending.",
      RST, [("payout order", RS + "state.rs"), ("status reports", RS + "state.rs")],
      MIR + ROMEO + "transition table: the burn's class in every row that orders a payout", ROMEONOTE, state=RSTATE),
    P("P19", "Block scanning skips no height and asks for none twice",
      "Scanning of each chain starts at the block after the one the contract was deployed at, once; each received block makes exactly the next height of that chain be asked for, and nothing else does. After a restart exactly the block after the last one processed is asked for on each chain being scanned.",
      ["histories", "crash_points"], "every sequence of events, every stage, every restart",
      "The tests look at the tasks of one or two events; a height that is skipped after a restart or fetched twice after an unrelated event is beyond them.",
      RST, [("heights", RS + "state.rs"), ("restart", RS + "state.rs")],
      MIR + ROMEO + "new heights and block requests of every transition as terms over the old state", ROMEONOTE, state=RSTATE),
    P("P20", "Pending transactions are polled once per block, and again after a restart",
      "Each block of the chain that polls for it makes the status of every broadcast transaction without a pending status query be asked for, once, and of no other. After a restart no transaction is left marked as having a pending query, so that all are asked for again, including the one that sets up the contract's key.",
      ["histories", "crash_points"], "every sequence of events, every number and state of recorded requests, every restart",
      "The tests restart with one request in one state, if at all; a request that stays marked after a crash is never looked at again.",
      RST, [("status queries", RS + "state.rs"), ("restart", RS + "state.rs")],
      MIR + ROMEO + "transition table over every class of request, restart included", ROMEONOTE, state=RSTATE),
    P("P21", "A status report touches only the transaction it is about",
      "A report about a transaction id updates the status of the requests broadcast under exactly that id on that chain and ends their pending query; every other request keeps its status. The report is taken whatever stage the other recorded requests are in, and a confirmed key setup starts normal operation.",
      ["histories", "schedules"], "every report, every number and state of recorded requests",
      "The tests hold one or two requests in like stages; an update that aborts on, or leaks to, a request in another stage needs a mixed population.",
      RST, [("status reports", RS + "state.rs")],
      MIR + ROMEO + "transition table of the two report events; absence of aborts on lists with every class of neighbour", ROMEONOTE, state=RSTATE),
    P("P36", "Every recorded request moves on with the blocks, not before its height",
      "Every Bitcoin block gives each recorded deposit and withdrawal that has none a mint or burn due at a height the Stacks chain is bound to reach, and orders the ones that are due, but never one before its height. Every Stacks block orders the payout of each withdrawal whose burn is confirmed and whose payout was not ordered yet.",
      ["histories", "schedules"], "every sequence of events, every number and state of recorded requests",
      "The tests move one request forward; a request starved by a neighbour or by a particular height needs histories they do not contain.",
      RST, [("scheduling", RS + "state.rs")],
      MIR + ROMEO + "transition table: the classes of request each block must move, and the height condition on each order", ROMEONOTE, state=RSTATE),
    P("P15", "An event is on record before it changes anything",
      "Each event the relayer receives is appended to the log as one complete line and flushed before it changes the relayer's state or starts any task, and exactly that event is then applied, once. If an event cannot be written the relayer stops instead of going on.",
      ["crash_points", "fault_sequences", "histories"], "every event, every point the process can stop at, every failing write",
      "No unit test runs the event loop; an event applied before it is logged shows only when the process dies between the two.",
      RSYS, [("event loop", RS + "system.rs"), ("log", RS + "system.rs")],
      MIR + ROMEO + "ordered effects of the event loop: encode, append, newline, flush, each awaited and checked, before the one state update", ROMEONOTE),
    P("P16", "A restart rebuilds the state from the log, and from nothing else",
      "A restarted relayer reads the log it appends to from its beginning, applies every event on it in order, exactly once, under the same configuration, to a new state, and starts no task from it; it then goes on with that state. What an event does depends on nothing but state, event and configuration, and the log keeps every part of each event.",
      ["crash_points", "histories"], "every log, every restart, every event",
      "No unit test restarts the relayer; a part of an event the log loses, or a state change that depends on the clock, agrees with the tests until a restart.",
      RSYS + [RS + "state.rs", RS + "event.rs"], [("replay", RS + "system.rs"), ("state machine", RS + "state.rs"), ("encoders", RS + "event.rs")],
      MIR + ROMEO + "value flow of file, lines, state and configuration through replay; reachable-effects analysis of the state machine; completeness of the encoders", ROMEONOTE),
    P("P41", "An event whose recording a crash interrupted is cut off the log",
      "A crash can leave any beginning of the event being recorded at the end of the log. The next start applies every completely recorded event and none that is incomplete, removes what is left of the incomplete one, and nothing more, from the log before anything is written to it and before the state is used, and goes on; it does not fail because of it.",
      ["crash_points", "histories"], "every log, every point a write of it can stop at",
      "No unit test restarts the relayer, let alone on a log that ends in the middle of an event.",
      RSYS, [("replay", RS + "system.rs"), ("log", RS + "system.rs")],
      MIR + ROMEO + "path conditions of decoding and of leaving the replay loop; the length the log is cut to as a sum over the same loop; order of effects", ROMEONOTE),
    P("P42", "256- and 512-bit integers compute the exact result modulo their width",
      "For every pair of 256- or 512-bit integers, sum, difference and product are the exact ones modulo the width, none of them panics, and and, or, exclusive or, complement and shifts (to beyond the width) act on the number's own bits. Numbers compare by their value, the bit length is that of the number, and a conversion from or to another integer type or a list of limbs keeps the number: a lossy one modulo the width of its target, any other refuses a number type wider than the target and a list of the wrong length.",
      ["inputs"], "every pair of operands of both exported widths, every shift amount up to beyond the width",
      "The unit tests compute with a dozen chosen operands; a carry lost between two limbs needs operands whose lower limbs add up to all ones.",
      [CS + "uint.rs"], [("operations", CS + "uint.rs")],
      MIR + "summary of each operation with its loops unrolled, its value as an integer polynomial over the operands' limbs compared modulo the width (carries as atoms that have to cancel); comparison over every order of the limbs", "Loops are unrolled for the two exported widths; rests on the analyser's models of integer operations and iterators."),
    P("P25", "Every task is run once and reports the one event about its own subject",
      "Each task the relayer orders is run exactly once, and what it reports back is exactly one event of the kind that belongs to it, about the block, transaction or request the task was about, carrying the node's answer about that subject. A broadcast that fails stops the relayer in strict mode and is never reported under the id of a real transaction.",
      ["schedules", "fault_sequences", "configurations"], "every task, every configuration, every node answer",
      "No unit test runs a task; swapped subjects or an answer about another block look like ordinary traffic.",
      RSYS + [RS + "stacks_client.rs", RS + "bitcoin_client.rs", RS + "proof_data.rs"], [("task runner", RS + "system.rs"), ("Stacks node", RS + "stacks_client.rs"), ("Bitcoin node", RS + "bitcoin_client.rs")],
      MIR + ROMEO + "value flow from task to node request, and from the answer to the reported event, for each kind of task", ROMEONOTE),
    P("P22", "Each contract call the relayer makes carries its own request's data",
      "Each mint, burn and key-setup transaction calls the public function of that name of the configured contract at the relayer's own address, with exactly the arguments it takes, in order: the request's own amount and account, and the identifier, height, Merkle path, index and header of the request's own Bitcoin transaction in its own block; for the key setup, the relayer's taproot key. It is authorised by the relayer's own key for the configured network.",
      ["inputs", "configurations"], "every request, every configuration, every block",
      "No unit test makes a contract call; swapped arguments of one type, or another block's header, are well-formed calls that fail or mint wrongly only on a chain.",
      RSYS + [RS + "stacks_client.rs", RS + "proof_data.rs", RS + "config.rs", "romeo/asset-contract/contracts/asset.clar"], [("contract calls", RS + "system.rs"), ("proof data", RS + "proof_data.rs"), ("called functions", "romeo/asset-contract/contracts/asset.clar")],
      MIR + ROMEO + "value flow from each task to each part of the transaction it signs, matched against the signatures the contract's parser reads from its source", ROMEONOTE),
    P("P23", "Stacks transactions are signed, numbered and posted one at a time",
      "Each Stacks transaction sent is the contract call that was made, with the next free nonce the node reports for the relayer's own address, a fee of the node's rate times its length, and the chain of the configured network, all set before it is signed with the relayer's own key. It is posted once, as signed, through the one shared client, which stays locked from asking for the nonce until it is posted.",
      ["schedules", "configurations"], "every schedule of concurrent tasks, every configuration, every transaction",
      "No unit test posts a transaction; two that take the same nonce need a particular interleaving of tasks.",
      RSYS + [RS + "stacks_client.rs", RS + "config.rs"], [("signing and posting", RS + "stacks_client.rs"), ("shared client", RS + "stacks_client.rs")],
      MIR + ROMEO + "value flow and order of effects from the contract call to the post; life of the lock guard on every path; nobody else makes a client or copies one", ROMEONOTE),
    P("P24", "Secrets never reach logs, errors or panics",
      "No seed phrase, wallet import string, private key, API key or Bitcoin node password that the relayer, the command line tool or the libraries are given or derive appears in a log event, an error value, a panic message or the event record, on any path. The command line tool shows secrets only as the result of the command that generates them.",
      ["inputs", "configurations", "fault_sequences"], "every configuration, every invalid input, every failing step",
      "No test reads a log line or an error text; a leaked key needs a wrong seed phrase, a failing node or a particular log level.",
      RSYS + [RS + "stacks_client.rs", RS + "bitcoin_client.rs", RS + "config.rs", CS + "wallet.rs", CS + "crypto/wif.rs", "sbtc-cli/src/commands/deposit.rs", "sbtc-cli/src/commands/withdraw.rs", "sbtc-cli/src/commands/generate.rs"], [("credentials", CS + "wallet.rs"), ("node clients", RS + "stacks_client.rs"), ("configuration", RS + "config.rs")],
      MIR + ROMEO + "flow-insensitive taint analysis over locals, fields, closures, coroutines and printed forms of types, to every logging, printing, panicking and error-making call", ROMEONOTE),
    P("P35", "A Bitcoin block adds exactly its own requests to the records",
      "Each Bitcoin block adds to the relayer's records, for each of its transactions, exactly one record when the transaction is a deposit or withdrawal request to the relayer's own wallet on the configured network, with that operation's own amount and parties, the transaction's identifier and the block's height, and with nothing ordered for it yet. Nothing else adds records, and no other transaction does.",
      ["inputs", "configurations", "histories"], "every block, every transaction, every configuration",
      "The tests feed blocks without requests; a request that is dropped, doubled or recorded with another party's data needs a block that holds one.",
      RST + [RS + "config.rs"], [("block parsing", RS + "state.rs")],
      MIR + ROMEO + "value flow from each transaction of the block through the core parsers to the records, element by element", ROMEONOTE, state=RSTATE),
    P("P37", "A transaction's reported status is what the node says about it",
      "A Bitcoin transaction is reported confirmed only when it is mined, broadcast only while it waits in the pool, and rejected only when the node knows it in neither place, the pool being asked first; a request that fails is never taken for an answer. A Stacks transaction is confirmed on success, broadcast while pending or unknown, and rejected when aborted, always for the transaction that was asked about.",
      ["schedules", "fault_sequences"], "every answer and failure of either node, a transaction mined between two requests",
      "No unit test asks for a status; a transaction mined between two requests, or a failing node, needs a particular schedule.",
      [RS + "bitcoin_client.rs", RS + "stacks_client.rs"], [("Bitcoin status", RS + "bitcoin_client.rs"), ("Stacks status", RS + "stacks_client.rs")],
      MIR + ROMEO + "decision table of each status over the node's answers, with the order of the requests and the way of every error", ROMEONOTE),
    P("P38", "The configuration is what its file says, and both wallets share one key",
      "Every part of the configuration is the entry of that name in the file it was read from, the credentials are those of the first account of the file's mnemonic on the file's networks, and a relative state directory lies beside the file. The wallet that pays out and the address deposits are recognised by belong to the same taproot key on the configured network.",
      ["configurations"], "every configuration file",
      "No unit test reads a configuration; a deposit address and a wallet of different keys agree in shape and differ only in who can spend.",
      [RS + "config.rs", RS + "bitcoin_client.rs"], [("configuration", RS + "config.rs"), ("wallet", RS + "bitcoin_client.rs")],
      MIR + ROMEO + "value flow from the entries of the file to each part of the configuration, and from the key to the wallet and the address", ROMEONOTE),
    P("P39", "The Merkle path of a transaction leads to the root of its block",
      "The relayer's Merkle tree of a block has the transaction ids as its lowest row and above each row the double SHA-256 of its neighbouring pairs, the last entry of an odd row (but the root) doubled, up to a single hash. The path it gives for a transaction is its pair's other entry in each row below the root, from the leaves up, and there is none for an index outside the tree.",
      ["inputs"], "every list of transactions, every index",
      "The unit test proves one transaction of one block; a path wrong for a rightmost or deep transaction only shows as a mint the contract refuses.",
      [RS + "proof_data.rs"], [("tree and path", RS + "proof_data.rs")],
      MIR + ROMEO + "induction over the rows of the tree on its loop summary, put through a generic odd, even and last row; likewise one step of the path for a left and a right entry", ROMEONOTE),
    P("P40", "Each payout is one transaction of the documented outputs",
      "Each payout broadcasts one transaction, once: one made by the relayer's own synchronised wallet that pays exactly the documented outputs for the withdrawal's own recipient and amount and the Stacks block at its height, in the documented order before any change, fixed before it is signed and unchanged after.",
      ["inputs", "fault_sequences"], "every withdrawal, every wallet, every failing step",
      "No unit test makes a payout; a reordered output or an unsigned input shows only when the network or a peer reads the transaction.",
      RSYS + [RS + "bitcoin_client.rs"], [("payout", RS + "bitcoin_client.rs"), ("fulfilment task", RS + "system.rs")],
      MIR + ROMEO + "value flow and order of effects from the task through the transaction builder to the one broadcast", ROMEONOTE),
]

NA = [
    ("C01", "Base-58 and c32 round trips give back the same bytes",
     "Encoding any byte string and decoding the result gives the same bytes back.",
     ["inputs"], "every byte string", "tests sample a few byte strings", [CS + "c32.rs", CS + "wallet.rs"], [("c32 encode/decode", CS + "c32.rs")],
     "value equality of two base conversions by carry loops is an arithmetic identity over unbounded runtime digits; the shape of the code (which P01 and P07 check: totality, alphabet, checksum and version handling) does not settle it"),
    ("C02", "Division of multi-precision integers is exact",
     "The quotient of two wide unsigned integers is the mathematically exact one, rounded down.",
     ["inputs"], "every pair of operands, every width", "tests sample a few operands", [CS + "uint.rs"], [("Uint operations", CS + "uint.rs")],
     "long division is a loop whose number of rounds depends on the operands' values; its result follows from an invariant between the remainder, the shifted divisor and the bits set so far, which the polynomial comparison of P42 (other operations) does not find by itself"),
    ("C03", "Merkle and header proofs verify exactly the transactions in a block",
     "The Bitcoin verification contract accepts a proof if and only if the transaction is in the block with that header.",
     ["inputs"], "every block, transaction and proof", "no tests in the repository run the contract on real proofs", ["romeo/asset-contract/contracts/clarity-bitcoin-mini.clar"], [("merkle folding", "romeo/asset-contract/contracts/clarity-bitcoin-mini.clar")],
     "the folding of hashes over proof-supplied values is a statement about runtime hash values"),
    ("C04", "The token supply never exceeds the Bitcoin held by the sBTC wallet",
     "At any moment the supply of the token is at most the amount of Bitcoin held by the sBTC wallet and not yet promised to a withdrawal.",
     ["histories"], "every history of both chains", "tests do not run against chains", ["romeo/src/state.rs", "romeo/asset-contract/contracts/asset.clar"], [("mint, burn, fulfil", "romeo/src/state.rs")],
     "a balance over the histories of two external chains; its code-shaped clauses (only recognised deposits mint, at most once, fulfil only after a confirmed burn) are P17, P18, P21 and P28"),
    ("C05", "A chain reorganisation never leaves the state inconsistent",
     "After any reorganisation of either chain the relayer's state is consistent with the new canonical chains.",
     ["histories", "fault_sequences"], "every reorganisation of every depth", "tests run no chains", ["romeo/src/state.rs", "romeo/src/system.rs"], [("block scanning", "romeo/src/system.rs")],
     "the relayer has no reorganisation handling to decide anything about; the property is about external histories"),
    ("C06", "Every deposit and withdrawal is eventually acted upon",
     "Every recognised deposit is eventually minted and every withdrawal eventually burned and fulfilled.",
     ["schedules", "histories", "fault_sequences"], "every schedule and every sequence of failures", "tests run no event loop", ["romeo/src/state.rs", "romeo/src/system.rs"], [("event loop", "romeo/src/system.rs")],
     "liveness under external failures; the safety clauses it rests on (restart, polling and scan continuity) are P19 and P20"),
]


def properties():
    out = []
    for p in PROPS:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        out.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a})
    for i, t, s, o, q, w, f, m, _ in NA:
        out.append({"id": i, "title": t, "statement": s, "quantifier": {"over": o, "text": q}, "why_tests_cant": w, "anchors": {"files": f, "mechanism": [{"name": n, "where": x} for n, x in m]}})
    return out


def manifest():
    checks = []
    for p in PROPS:
        i = p["id"]
        checks.append({"property": i, "quick_cmd": f"python3 lib/check.py {i} --tier quick", "thorough_cmd": f"python3 lib/check.py {i} --tier thorough",
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    return {"version": 1, "setup_cmd": "python3 lib/prep.py core romeo", "checks": checks,
            "not_applicable": [{"property": n[0], "reason": n[8]} for n in NA]}


if __name__ == "__main__":
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in properties():
            f.write(json.dumps(p) + "\n")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest(), f, indent=1)
        f.write("\n")
