A="romeo/asset-contract/contracts/asset.clar"
V="romeo/asset-contract/contracts/clarity-bitcoin-mini-deploy.clar"
T="romeo/asset-contract/contracts/clarity-bitcoin-mini.clar"
PT="romeo/asset-contract/deployments/default.testnet-plan.yaml"
PD="romeo/asset-contract/deployments/default.devnet-plan.yaml"
ALL="P27 P28 P29 P30 P34"
VERIFY="        (try! (verify-txid-exists-on-burn-chain deposit-txid burn-chain-height merkle-proof tx-index block-header))\n"
MUTS=[
# owner
("P27",A,"(is-eq (var-get contract-owner) contract-caller)","(is-eq (var-get contract-owner) tx-sender)",1),
("P27",A,"(is-eq (var-get contract-owner) contract-caller)","(or (is-eq (var-get contract-owner) contract-caller) (is-eq (var-get contract-owner) tx-sender))",1),
("P27",A,"    (try! (is-contract-owner))\n    (ok (var-set contract-owner new-owner))","    (var-set contract-owner new-owner)\n    (is-contract-owner)",1),
("P27",A,"        (try! (is-contract-owner))\n        (ok (var-set bitcoin","        (ok (var-set bitcoin",1),
("P27",A,"(ok (asserts! (is-eq (var-get contract-owner) contract-caller) err-forbidden))","(ok (is-eq (var-get contract-owner) contract-caller))",1),
("P27",A,"(define-data-var contract-owner principal tx-sender)","(define-data-var contract-owner principal 'ST1PQHQKV0RJXZFY1DGX8MNSNYVE3VGZJSRTPGZGM)",1),
("P27",A,"(ok (var-set contract-owner new-owner))","(ok (var-set contract-owner tx-sender))",1),
(ALL,A,"(ok (asserts! (is-eq (var-get contract-owner) contract-caller) err-forbidden))","(if (is-eq contract-caller (get-contract-owner)) (ok true) err-forbidden)",0),
(ALL,A,"    (try! (is-contract-owner))\n    (ok (var-set contract-owner new-owner))","    (asserts! (is-eq contract-caller (var-get contract-owner)) err-forbidden)\n    (var-set contract-owner new-owner)\n    (ok true)",0),
# mint/burn
("P28",A,VERIFY,"",1),
("P28",A,VERIFY,VERIFY.replace("tx-index block","u0 block"),1),
("P28",A,VERIFY,"        (is-ok (verify-txid-exists-on-burn-chain deposit-txid burn-chain-height merkle-proof tx-index block-header))\n",1),
("P28",A,"(asserts! (map-insert amounts-by-btc-tx deposit-txid (to-int amount)) err-btc-tx-already-used)","(map-insert amounts-by-btc-tx deposit-txid (to-int amount))",1),
("P28",A,"(asserts! (map-insert amounts-by-btc-tx deposit-txid (to-int amount)) err-btc-tx-already-used)","(map-set amounts-by-btc-tx deposit-txid (to-int amount))",1),
("P28",A,"(asserts! (map-insert amounts-by-btc-tx deposit-txid (to-int amount)) err-btc-tx-already-used)","(asserts! (not (is-eq (map-get? amounts-by-btc-tx deposit-txid) (some (to-int amount)))) err-btc-tx-already-used)\n        (map-set amounts-by-btc-tx deposit-txid (to-int amount))",1),
("P28 P29",A,"(asserts! (map-insert amounts-by-btc-tx deposit-txid (to-int amount)) err-btc-tx-already-used)","(asserts! (is-none (map-get? amounts-by-btc-tx deposit-txid)) err-btc-tx-already-used)\n        (map-set amounts-by-btc-tx deposit-txid (to-int amount))",0),
("P28",A,"(* -1 (to-int amount))","(to-int amount)",1),
("P28",A,"(* -1 (to-int amount))","(- 0 (to-int amount))",0),
("P28",A,"(try! (ft-burn? sbtc amount owner))","(match (ft-burn? sbtc amount owner) done done failed false)",1),
("P28",A,"(try! (ft-mint? sbtc amount destination))","(try! (ft-mint? sbtc amount tx-sender))",1),
("P28",A,"        (print {notification: \"burn\", payload: withdraw-txid})\n","        (map-delete amounts-by-btc-tx withdraw-txid)\n        (print {notification: \"burn\", payload: withdraw-txid})\n",1),
("P28",A,"        (print {notification: \"mint\", payload: deposit-txid})\n        (ok true)","        (print {payload: deposit-txid, notification: \"mint\"})\n        (ok true)",0),
("P28",A,"        (print {notification: \"mint\", payload: deposit-txid})\n        (ok true)","        (print {payload: deposit-txid, notification: \"burn\"})\n        (ok true)",1),
("P28",A,"(define-map amounts-by-btc-tx (buff 32) int)","(define-map amounts-by-btc-tx (buff 31) int)",1),
# transfer
("P29",A,"(or (is-eq tx-sender sender) (is-eq contract-caller sender))","(or (is-eq tx-sender sender) (is-eq contract-caller sender) (is-eq contract-caller (var-get contract-owner)))",1),
("P29",A,"(or (is-eq tx-sender sender) (is-eq contract-caller sender))","(is-eq tx-sender sender)",1),
("P29",A,"(or (is-eq tx-sender sender) (is-eq contract-caller sender))","(not (and (not (is-eq sender tx-sender)) (not (is-eq contract-caller sender))))",0),
("P29",A,"(ft-transfer? sbtc amount sender recipient)","(ft-transfer? sbtc amount recipient sender)",1),
("P29",A,"(ok (ft-get-balance sbtc who))","(ok (ft-get-balance sbtc tx-sender))",1),
("P29",A,"u2100000000000000","u21000000000000000",1),
("P29",A,"(ok u8)","(ok u6)",1),
("P29",A,"(match memo to-print (print to-print) 0x)","(if (is-some memo) (print (unwrap-panic memo)) 0x)",0),
("P29",A,"    (map-get? amounts-by-btc-tx btc-txid)","    (some (default-to 0 (map-get? amounts-by-btc-tx btc-txid)))",1),
("P27 P29",A,";; read only functions\n","(define-public (sweep (who principal)) (ft-burn? sbtc u1 who))\n",1),
("P29",A,";; read only functions\n","(define-public (move (amount uint) (to principal)) (ft-transfer? sbtc amount (var-get contract-owner) to))\n",1),
# deployment
("P30",PT,"contracts/clarity-bitcoin-mini-deploy.clar","contracts/clarity-bitcoin-mini.clar",1),
("P30",PD,"contract-name: clarity-bitcoin-mini","contract-name: clarity-bitcoin-mini-deploy",1),
("P30",V,"(define-constant DEBUG-MODE false)","(define-constant DEBUG-MODE true)",1),
("P30 P34",V,"(if DEBUG-MODE (map-get? debug-burn-header-hashes burn-height) (get-burn-block-info? header-hash burn-height))","(match (get-burn-block-info? header-hash burn-height) known (some known) (map-get? debug-burn-header-hashes burn-height))",1),
("P30",V,"(ok (and DEBUG-MODE (map-set debug-burn-header-hashes burn-height header-hash)))","(ok (map-set debug-burn-header-hashes burn-height header-hash))",1),
("P30",T,"(ok (and DEBUG-MODE (map-set debug-burn-header-hashes burn-height header-hash)))","(if DEBUG-MODE (ok (map-set debug-burn-header-hashes burn-height header-hash)) (ok false))",0),
# proofs
("P34 P30",V,"		(asserts! (verify-block-header header height) ERR-HEADER-HEIGHT-MISMATCH)\n","",1),
("P34 P30",V,"(sha256 (sha256 header))","(sha256 header)",1),
("P34 P30",V,"(reverse-buff32 (sha256 (sha256 header)))","(sha256 (sha256 header))",1),
("P34 P30",V,"(verify-merkle-proof (reverse-buff32 txid) merkle","(verify-merkle-proof txid merkle",1),
("P34 P30",V,"(is-eq (+ u1 ctr) (len proof-hashes))","(<= (+ u1 ctr) (len proof-hashes))",1),
("P34",V,"(is-eq (+ u1 ctr) (len proof-hashes))","(>= (+ u1 ctr) (len proof-hashes))",0),
("P34 P30",V,"(is-left (is-bit-set path ctr))","(is-left (not (is-bit-set path ctr)))",1),
#("P34 P30",V,"(path: (+ (pow u2 proof-length) (get tx-index proof))","(path: (get tx-index proof)",0),
("P34 P30",V,"{ path: (+ (pow u2 proof-length) (get tx-index proof))","{ path: (get tx-index proof)",0),
("P34 P30",V,"(define-constant block-header-merkle-root-start u36)","(define-constant block-header-merkle-root-start u4)",1),
("P34 P30",V,"(define-constant block-header-merkle-root-end u68)","(define-constant block-header-merkle-root-end u67)",1),
("P34 P30",V,"u8 u9 u10 u11 u12 u13)","u8 u9 u10 u11 u12)",1),
("P34 P30",V,"cur-hash: reversed-txid, verified: false}))","cur-hash: reversed-txid, verified: (is-eq reversed-txid merkle-root)}))",1),
("P34 P30",V,"(ok (asserts! (verify-merkle-proof (reverse-buff32 txid) merkle-root-reversed proof) ERR-INVALID-MERKLE-PROOF))","(ok (verify-merkle-proof (reverse-buff32 txid) merkle-root-reversed proof))",1),
("P34 P30",V,"(> (bit-and val (bit-shift-left u1 bit)) u0)","(is-eq (mod (/ val (pow u2 bit)) u2) u1)",0),
("P34 P30",V,"(h2 (if is-left cur-hash (unwrap-panic (element-at proof-hashes ctr))))","(h2 (if is-left cur-hash (unwrap-panic (element-at proof-hashes u0))))",1),
("P34 P30",V,"(merge state { cur-hash: next-hash, verified: is-verified})","(merge state { cur-hash: h1, verified: is-verified})",1),
("P34 P30",V,"(next-hash (sha256 (sha256 (concat h1 h2))))","(next-hash (double (concat h1 h2)))",1),
("P34 P30",V,"(reverse-buff16 (unwrap-panic (as-max-len? (unwrap-panic (slice? input u16 u32)) u16)))","(reverse-buff16 (unwrap-panic (as-max-len? (unwrap-panic (slice? input u0 u16)) u16)))",1),
("P34 P30",V,"(asserts! (verify-block-header header height)","(asserts! (verify-block-header header (- burn-block-height u1))",1),
("P34 P30",V,"		(asserts! (verify-block-header header height) ERR-HEADER-HEIGHT-MISMATCH)\n		(ok (asserts! (verify-merkle-proof (reverse-buff32 txid) merkle-root-reversed proof) ERR-INVALID-MERKLE-PROOF))))","		(if (not (verify-block-header header height)) ERR-HEADER-HEIGHT-MISMATCH\n		(if (verify-merkle-proof (reverse-buff32 txid) merkle-root-reversed proof) (ok true) ERR-INVALID-MERKLE-PROOF))))",0),
]
