# refactorings of the contracts: all quiet
PROPS = "P27 P28 P29 P30 P34 P22"
A="romeo/asset-contract/contracts/asset.clar"
V="romeo/asset-contract/contracts/clarity-bitcoin-mini-deploy.clar"
T="romeo/asset-contract/contracts/clarity-bitcoin-mini.clar"
OWN="(define-private (is-contract-owner)\n    (ok (asserts! (is-eq (var-get contract-owner) contract-caller) err-forbidden))\n)"
MINT="""        (try! (is-contract-owner))
        (try! (verify-txid-exists-on-burn-chain deposit-txid burn-chain-height merkle-proof tx-index block-header))
        (asserts! (map-insert amounts-by-btc-tx deposit-txid (to-int amount)) err-btc-tx-already-used)
        (try! (ft-mint? sbtc amount destination))
        (print {notification: "mint", payload: deposit-txid})
        (ok true)
"""
BURN=MINT.replace("deposit-txid (to-int amount)","withdraw-txid (* -1 (to-int amount))").replace("deposit-txid","withdraw-txid").replace("mint?","burn?").replace("destination","owner").replace('"mint"','"burn"').replace("    (ok true)","	(ok true)")
BURN=BURN.replace("        	(ok","    	(ok").replace("    	(ok","    	(ok")
STEP="""						(let ((path (get path state))
									(is-left (is-bit-set path ctr))
									(proof-hashes (get proof-hashes state))
									(cur-hash (get cur-hash state))
									(root-hash (get root-hash state))

									(h1 (if is-left (unwrap-panic (element-at proof-hashes ctr)) cur-hash))
									(h2 (if is-left cur-hash (unwrap-panic (element-at proof-hashes ctr))))
									(next-hash (sha256 (sha256 (concat h1 h2))))
									(is-verified (and (is-eq (+ u1 ctr) (len proof-hashes)) (is-eq next-hash root-hash))))
						 (merge state { cur-hash: next-hash, verified: is-verified})))))"""
WAS="""	(let ((merkle-root-reversed (unwrap-panic (as-max-len? (unwrap! (slice? header block-header-merkle-root-start block-header-merkle-root-end) ERR-INVALID-BLOCK-HEADER-LENGTH) u32))))
		(asserts! (verify-block-header header height) ERR-HEADER-HEIGHT-MISMATCH)
		(ok (asserts! (verify-merkle-proof (reverse-buff32 txid) merkle-root-reversed proof) ERR-INVALID-MERKLE-PROOF))))"""
MUTS=[
 (A,[(OWN,"(define-private (is-contract-owner)\n    (begin\n        (asserts! (is-eq contract-caller (var-get contract-owner)) err-forbidden)\n        (ok true)\n    )\n)")],0),
 (A,[(OWN,"(define-private (is-contract-owner)\n    (if (is-eq (var-get contract-owner) contract-caller) (ok true) err-forbidden)\n)")],0),
 (A,[(OWN,"(define-private (is-contract-owner)\n    (ok (asserts! (caller-is (var-get contract-owner)) err-forbidden))\n)\n\n(define-private (caller-is (who principal))\n    (is-eq who contract-caller)\n)")],0),
 (A,[("(define-constant err-forbidden (err u403))","(define-constant err-forbidden-code u403)\n(define-constant err-forbidden (err err-forbidden-code))")],0),
 (A,[(OWN,OWN.replace("err-forbidden","(err u403)"))],0),
 (A,[(MINT,MINT.replace("        (try! (is-contract-owner))\n        (try! (verify-txid-exists-on-burn-chain deposit-txid burn-chain-height merkle-proof tx-index block-header))\n","        (try! (check-call deposit-txid burn-chain-height merkle-proof tx-index block-header))\n")),
     (";; private functions\n;;","(define-private (check-call (txid (buff 32)) (burn-chain-height uint) (merkle-proof (list 14 (buff 32))) (tx-index uint) (block-header (buff 80)))\n    (begin\n        (try! (is-contract-owner))\n        (verify-txid-exists-on-burn-chain txid burn-chain-height merkle-proof tx-index block-header)\n    )\n)\n\n;; private functions\n;;")],0),
 (A,[(MINT,MINT.replace("        (asserts! (map-insert amounts-by-btc-tx deposit-txid (to-int amount)) err-btc-tx-already-used)\n","        (try! (use-txid deposit-txid (to-int amount)))\n")),
     (";; private functions\n;;",";; private functions\n;;\n(define-private (use-txid (txid (buff 32)) (amount int))\n    (ok (asserts! (map-insert amounts-by-btc-tx txid amount) err-btc-tx-already-used))\n)\n")],0),
 (A,[(MINT,MINT.replace("        (asserts! (map-insert amounts-by-btc-tx deposit-txid (to-int amount)) err-btc-tx-already-used)\n","        (asserts! (is-none (map-get? amounts-by-btc-tx deposit-txid)) err-btc-tx-already-used)\n        (map-set amounts-by-btc-tx deposit-txid (to-int amount))\n"))],0),
 (A,[(MINT,MINT.replace("        (asserts! (map-insert amounts-by-btc-tx deposit-txid (to-int amount)) err-btc-tx-already-used)\n        (try! (ft-mint? sbtc amount destination))\n","        (try! (ft-mint? sbtc amount destination))\n        (asserts! (map-insert amounts-by-btc-tx deposit-txid (to-int amount)) err-btc-tx-already-used)\n"))],0),
 (A,[(MINT,MINT.replace("    (begin","").replace("        (asserts! (map-insert amounts-by-btc-tx deposit-txid (to-int amount)) err-btc-tx-already-used)\n","        (let ((signed-amount (to-int amount)))\n            (asserts! (map-insert amounts-by-btc-tx deposit-txid signed-amount) err-btc-tx-already-used)\n        )\n"))],0),
 (A,[(MINT,MINT.replace("(try! (verify-txid-exists-on-burn-chain deposit-txid burn-chain-height merkle-proof tx-index block-header))","(unwrap! (verify-txid-exists-on-burn-chain deposit-txid burn-chain-height merkle-proof tx-index block-header) (err u7))"))],0),
 (A,[(MINT,MINT.replace("(try! (verify-txid-exists-on-burn-chain deposit-txid","(asserts! true (err u1))\n        (try! (verify-txid-exists-on-burn-chain deposit-txid"))],0),
 (A,[("(map-insert amounts-by-btc-tx withdraw-txid (* -1 (to-int amount)))","(map-insert amounts-by-btc-tx withdraw-txid (* (to-int amount) -1))")],0),
 (A,[("(map-insert amounts-by-btc-tx withdraw-txid (* -1 (to-int amount)))","(map-insert amounts-by-btc-tx withdraw-txid (- (to-int amount)))")],0),
 (A,[("(asserts! (or (is-eq tx-sender sender) (is-eq contract-caller sender)) err-invalid-caller)","(asserts! (or (is-eq contract-caller sender) (is-eq sender tx-sender)) err-invalid-caller)")],0),
 (A,[("(asserts! (or (is-eq tx-sender sender) (is-eq contract-caller sender)) err-invalid-caller)","(asserts! (is-sender-or-caller sender) err-invalid-caller)"),(";; private functions\n;;",";; private functions\n;;\n(define-private (is-sender-or-caller (who principal))\n    (or (is-eq tx-sender who) (is-eq contract-caller who))\n)\n")],0),
 (A,[("(asserts! (or (is-eq tx-sender sender) (is-eq contract-caller sender)) err-invalid-caller)","(asserts! (if (is-eq tx-sender sender) true (is-eq contract-caller sender)) err-invalid-caller)")],0),
 (A,[("(asserts! (or (is-eq tx-sender sender) (is-eq contract-caller sender)) err-invalid-caller)","(asserts! (not (and (not (is-eq tx-sender sender)) (not (is-eq contract-caller sender)))) err-invalid-caller)")],0),
 (A,[("(match memo to-print (print to-print) 0x)","(if (is-some memo) (print (unwrap-panic memo)) 0x)")],0),
 (A,[("(match memo to-print (print to-print) 0x)","(and (is-some memo) (is-some (some (print (unwrap-panic memo)))))")],0),
 (A,[("		(try! (ft-transfer? sbtc amount sender recipient))\n		(match memo to-print (print to-print) 0x)\n		(ok true)\n","		(match memo to-print (print to-print) 0x)\n		(ft-transfer? sbtc amount sender recipient)\n")],0),
 (A,[("	(ok u8)\n","	(ok decimals)\n"),(";; constants\n;;",";; constants\n;;\n(define-constant decimals u8)")],0),
 (A,[("    (var-get contract-owner)\n)\n\n(define-read-only (get-name)","    (begin (var-get contract-owner))\n)\n\n(define-read-only (get-name)")],0),
 (A,[(".clarity-bitcoin-mini was-txid-mined burn-chain-height txid block-header { tx-index: tx-index, hashes: merkle-proof})",".clarity-bitcoin-mini was-txid-mined burn-chain-height txid block-header { hashes: merkle-proof, tx-index: tx-index })")],0),
 (A,[("    (contract-call? .clarity-bitcoin-mini was-txid-mined burn-chain-height txid block-header { tx-index: tx-index, hashes: merkle-proof})","    (let ((proof { tx-index: tx-index, hashes: merkle-proof }))\n        (contract-call? .clarity-bitcoin-mini was-txid-mined burn-chain-height txid block-header proof)\n    )")],0),
 (A,[("    (try! (is-contract-owner))\n    (ok (var-set contract-owner new-owner))","    (try! (is-contract-owner))\n    (var-set contract-owner new-owner)\n    (ok true)")],0),
] + [(F,e,0) for F in (V,T) for e in [
 [("(define-read-only (is-bit-set (val uint) (bit uint))\n	(> (bit-and val (bit-shift-left u1 bit)) u0))","(define-read-only (is-bit-set (val uint) (bit uint))\n	(not (is-eq (bit-and val (bit-shift-left u1 bit)) u0)))")],
 [("	(> (bit-and val (bit-shift-left u1 bit)) u0))","	(is-eq (bit-and (bit-shift-right val bit) u1) u1))")],
 [(STEP,STEP.replace("(h1 (if is-left (unwrap-panic (element-at proof-hashes ctr)) cur-hash))\n									(h2 (if is-left cur-hash (unwrap-panic (element-at proof-hashes ctr))))","(sibling (unwrap-panic (element-at proof-hashes ctr)))\n									(h1 (if is-left sibling cur-hash))\n									(h2 (if is-left cur-hash sibling))"))],
 [(STEP,STEP.replace("(next-hash (sha256 (sha256 (concat h1 h2))))","(next-hash (hash-pair h1 h2))")),(";; Verify the next step","(define-read-only (hash-pair (left (buff 32)) (right (buff 32)))\n	(sha256 (sha256 (concat left right))))\n\n;; Verify the next step")],
 [(STEP,STEP.replace("(is-eq (+ u1 ctr) (len proof-hashes))","(is-eq ctr (- (len proof-hashes) u1))"))],
 [(STEP,STEP.replace("(and (is-eq (+ u1 ctr) (len proof-hashes)) (is-eq next-hash root-hash))","(and (is-eq next-hash root-hash) (is-eq (len proof-hashes) (+ ctr u1)))"))],
 [(STEP,STEP.replace("(h1 (if is-left (unwrap-panic (element-at proof-hashes ctr)) cur-hash))\n									(h2 (if is-left cur-hash (unwrap-panic (element-at proof-hashes ctr))))\n									(next-hash (sha256 (sha256 (concat h1 h2))))","(other (unwrap-panic (element-at proof-hashes ctr)))\n									(next-hash (sha256 (sha256 (if is-left (concat other cur-hash) (concat cur-hash other)))))"))],
 [("element-at proof-hashes ctr","element-at? proof-hashes ctr"),("element-at proof-hashes ctr","element-at? proof-hashes ctr")],
 [(STEP,STEP.replace("(merge state { cur-hash: next-hash, verified: is-verified})","{ path: path, root-hash: root-hash, proof-hashes: proof-hashes, cur-hash: next-hash, verified: is-verified }"))],
 [("		(if (get verified state)\n				state\n				(if (>= ctr (len (get proof-hashes state)))\n						(merge state { verified: false})","		(if (get verified state)\n				state\n				(if (not (< ctr (len (get proof-hashes state))))\n						(merge state { verified: false})")],
 [("(is-eq (get-burn-block-header-hash expected-block-height) (some (reverse-buff32 (sha256 (sha256 header))))))","(let ((header-hash (reverse-buff32 (sha256 (sha256 header)))))\n		(is-eq (some header-hash) (get-burn-block-header-hash expected-block-height))))")],
 [("(is-eq (get-burn-block-header-hash expected-block-height) (some (reverse-buff32 (sha256 (sha256 header))))))","(match (get-burn-block-header-hash expected-block-height)\n		expected (is-eq expected (reverse-buff32 (sha256 (sha256 header))))\n		false))")],
 [(WAS,WAS.replace("		(ok (asserts! (verify-merkle-proof (reverse-buff32 txid) merkle-root-reversed proof) ERR-INVALID-MERKLE-PROOF))","		(asserts! (verify-merkle-proof (reverse-buff32 txid) merkle-root-reversed proof) ERR-INVALID-MERKLE-PROOF)\n		(ok true)"))],
 [(WAS,WAS.replace("		(ok (asserts! (verify-merkle-proof (reverse-buff32 txid) merkle-root-reversed proof) ERR-INVALID-MERKLE-PROOF))","		(if (verify-merkle-proof (reverse-buff32 txid) merkle-root-reversed proof) (ok true) ERR-INVALID-MERKLE-PROOF)"))],
 [(WAS,WAS.replace("(merkle-root-reversed (unwrap-panic (as-max-len? (unwrap! (slice? header block-header-merkle-root-start block-header-merkle-root-end) ERR-INVALID-BLOCK-HEADER-LENGTH) u32)))","(merkle-root-reversed (unwrap! (as-max-len? (unwrap! (slice? header u36 u68) ERR-INVALID-BLOCK-HEADER-LENGTH) u32) ERR-INVALID-BLOCK-HEADER-LENGTH))"))],
 [(WAS,WAS.replace("(let ((merkle-root-reversed (unwrap-panic (as-max-len? (unwrap! (slice? header block-header-merkle-root-start block-header-merkle-root-end) ERR-INVALID-BLOCK-HEADER-LENGTH) u32)))","(let ((root-slice (unwrap! (slice? header block-header-merkle-root-start block-header-merkle-root-end) ERR-INVALID-BLOCK-HEADER-LENGTH))\n		(merkle-root-reversed (unwrap-panic (as-max-len? root-slice u32)))\n		"))],
 [("(let ((proof-hashes (get hashes proof))\n		  (proof-length (len proof-hashes)))","(let ((proof-length (len (get hashes proof)))\n		  (proof-hashes (get hashes proof)))")],
 [("path: (+ (pow u2 proof-length) (get tx-index proof))","path: (+ (get tx-index proof) (pow u2 proof-length))")],
 [("path: (+ (pow u2 proof-length) (get tx-index proof))","path: (+ (bit-shift-left u1 proof-length) (get tx-index proof))")],
 [("(unwrap-panic (slice? (list u0 u1 u2 u3 u4 u5 u6 u7 u8 u9 u10 u11 u12 u13) u0 proof-length))","(list u0 u1 u2 u3 u4 u5 u6 u7 u8 u9 u10 u11 u12 u13)")],
]]
