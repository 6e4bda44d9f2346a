"""The task that mints, the one that burns and the one that sets the contract's key are run symbolically to the
transaction each makes: its parts are terms over the configuration, the request the task is about and the node's
answers. Function name, number, order and types of the arguments are compared with the asset contract's own source;
each argument with the documented origin (block and place of the request's own Bitcoin transaction)."""
from fw import *
from rio import *
from contracts import assets, need

SCOPE = "romeo"
LEVEL = "other"
RULE = "the contract call made by a task names a public function of the asset contract with the arguments that function takes, in its order, each computed from the request itself; sender, contract, network and authorisation are the relayer's own, from its configuration"
ASSUME = ["the block at a height is the one the node answers with", "bitcoin's serialisation of a header is the documented 80 bytes"]

OPAQUE = ("BitcoinMerkleTree::new", "BitcoinMerkleTree::proof", "BitcoinMerkleTree::root")
FNS = {"CreateMint": "mint", "CreateBurn": "burn", "UpdateContractPublicKey": "set-bitcoin-wallet-public-key"}


def vname(c, t):
    """variant name of an enum value"""
    return c.prog.adts[t.a[0]]["v"][t.a[1]]["n"] if t.op == "adt" and t.a[0] in c.prog.adts else None


def named(c, t, n):
    """field of a known struct or variant value"""
    i = [j for j, f in enumerate(c.prog.adts[t.a[0]]["v"][t.a[1]]["f"]) if f["n"] == n]
    return t.a[2 + i[0]] if i else None


def uncast(x, width=32):
    """through casts that keep every height, index and amount (the engine drops those it knows to widen)"""
    while x.op == "cast" and (x.a[0] == "usize" or int(x.a[0][1:]) >= width):
        x = [a for a in x.a if isinstance(a, T)][0]
    return x


def calls(c):
    K = Tasks(c, OPAQUE)
    for n, fn in FNS.items():
        try:
            one_call(c, K, n, fn)
        except Shape as x:
            c.fact(False, f"shape:{n}", "-", f"{n}: {x}")


def one_call(c, K, n, fn):
    t = K.run(n)
    rs = t.calls("StacksTransaction::new")
    c.fact(len(rs) == 1 and not rs[0].loops, f"one:{n}", t.where, f"{n} makes one Stacks transaction ({len(rs)})")
    if len(rs) != 1:
        return
    r = rs[0]
    w = f"{r.site} {n}"
    version, auth, payload_ = r.args
    network(c, t, n, w, version)
    own_key(c, t, n, w, auth)
    ok = payload_.op == "adt" and vname(c, payload_) == "ContractCall"
    c.fact(ok, f"call:{n}", w, f"{n}: the transaction is a contract call: {show(payload_)[:80]}")
    if not ok:
        return
    call = payload_.a[2]
    if call.op != "adt":
        raise Shape("contract call " + show(call)[:100])
    own_address(c, t, n, w, named(c, call, "address"))
    c.fact(named(c, call, "contract_name") is c.fld(t.cfg, "contract_name"), f"contract:{n}", w, f"{n}: the contract called is the configured one: {show(named(c, call, 'contract_name'))[:80]}")
    name = named(c, call, "function_name")
    while name.op in ("conv", "call"):
        name = [a for a in (name.a if name.op == "conv" else name.a[2]) if isinstance(a, T)][-1]
    c.fact(name is S(fn), f"function:{n}", w, f"{n} calls {show(name)[:60]}, {fn} expected")
    args = named(c, call, "function_args")
    items = [x.a[0] for x in args.a] if args.op == "cat" and all(x.op == "one" for x in args.a) else None
    if items is None:
        raise Shape("arguments " + show(args)[:100])
    for con in assets(c):
        f = con.fns.get(fn)
        c.fact(f is not None and f.kind == "public", f"exists:{n}:{con.path}", w, f"{con.path} has a public function {fn}")
        if f is None:
            continue
        c.fact(len(f.params) == len(items), f"arity:{n}:{con.path}", w, f"{fn} of {con.path} takes {len(f.params)} arguments, {len(items)} are passed")
        for i, ((p, ty), x) in enumerate(zip(f.params, items)):
            k = kind(c, x)
            want = str(ty) if not isinstance(ty, list) else str(ty[0])
            c.fact(k == want, f"type:{n}:{con.path}:{i}", w, f"{fn} of {con.path} takes a {want} as {p}, a {k} is passed")
    if n == "UpdateContractPublicKey":
        new_key(c, t, n, w, items)
    else:
        request(c, t, n, w, items)


def kind(c, x):
    """Clarity type of a value the relayer makes"""
    x = unwrap(x)
    if x.op == "adt":
        v = vname(c, x)
        return {"UInt": "uint", "Int": "int", "Bool": "bool", "Principal": "principal", "Sequence": "list"}.get(v, v)
    if is_call(x, "buff_from"):
        return "buff"
    if is_call(x, "list_from"):
        return "list"
    if x.op == "conv" and "Value" in str(x.a[0]):
        t = unref(tyof([a for a in x.a if isinstance(a, T)][-1]))
        if t is not None and t[0] == "adt" and t[1].split("::")[-1] in ("PrincipalData", "StandardPrincipalData"):
            return "principal"
    return show(x)[:40]


def network(c, t, n, w, version):
    net = c.fld(t.cfg, "stacks_network")
    ty = unref(tyof(net))
    if ty is None or ty[1] not in c.prog.adts:
        raise Shape("type of the Stacks network")
    d = engine.ENG.discr(net)
    for i, v in enumerate(c.prog.adts[ty[1]]["v"]):
        x = simp(is_label(d, i), version)
        c.fact(x.op == "adt" and vname(c, x) == v["n"], f"network:{n}:{v['n']}", w, f"{n}: on {v['n']} the transaction is made for {show(x)[:60]}")


def creds(c, x):
    return [q for q in subterms(x) if q.op == "call" and "Credentials::" in q.a[0]]


def own(c, q):
    return is_config_field(c, q.a[2][0], "stacks_credentials")


def only(x, *names):
    """calls in a term that are not among these, nor conversions"""
    return sorted({q.a[0] for q in subterms(x) if q.op == "call" and q.a[0].split("::")[-1] not in names})


def own_key(c, t, n, w, auth):
    ks = creds(c, auth)
    ok = auth.op == "adt" and vname(c, auth) == "Standard" and bool(ks) and all(q.a[0].endswith("::public_key") and own(c, q) for q in ks)
    x = unwrap(auth.a[2]) if ok else None
    ok = ok and is_call(x, "new_singlesig_p2pkh")
    ok = ok and not only(auth, "new_singlesig_p2pkh", "from_slice", "serialize", "public_key", "from_hex", "to_bytes", "serialize_compressed")
    c.fact(bool(ok), f"auth:{n}", w, f"{n}: the transaction is authorised by the relayer's own key: {show(auth)[:160]}")


def own_address(c, t, n, w, a):
    ks = creds(c, a)
    ok = bool(ks) and all(q.a[0].endswith("::address") and own(c, q) for q in ks)
    ok = ok and not only(a, "consensus_deserialize", "serialize_to_vec", "address", "new", "serialize", "version", "hash", "as_bytes", "as_ref", "from_string", "to_string", "from_str")
    c.fact(ok, f"address:{n}", w, f"{n}: the contract is called at the relayer's own address: {show(a)[:160]}")


def new_key(c, t, n, w, items):
    if len(items) != 1:
        return
    b = unwrap(items[0])
    ks = [q for q in subterms(b) if q.op == "call" and "Credentials::" in q.a[0]]
    ok = is_call(b, "buff_from") and len(ks) == 1 and ks[0].a[0].endswith("::public_key_p2tr") and is_config_field(c, ks[0].a[2][0], "bitcoin_credentials")
    ok = ok and not only(b, "buff_from", "try_into", "serialize", "public_key_p2tr")
    c.fact(ok, f"key:{n}", w, f"{n}: the key announced is the relayer's taproot key on Bitcoin: {show(b)[:160]}")


def request(c, t, n, w, items):
    if len(items) != 7:
        return
    info = t.vals[0]
    amount, who, txid, height, path, index, header = [unwrap(x) for x in items]
    c.fact(amount.op == "adt" and uncast(amount.a[2], 64) is c.fld(info, "amount"), f"amount:{n}", w, f"{n}: the amount is the request's own: {show(amount)[:100]}")
    party = "recipient" if n == "CreateMint" else "source"
    c.fact(who.op == "conv" and [a for a in who.a if isinstance(a, T)][-1] is c.fld(info, party), f"party:{n}", w, f"{n}: the account is the request's {party}: {show(who)[:100]}")
    blocks = {q for x in (txid, height, path, index, header) for q in subterms(x) if q.op == "call" and "RpcApi::get_block" in q.a[0] and q.a[0].endswith("get_block")}
    c.fact(len(blocks) == 1, f"block:{n}", w, f"{n}: all parts of the proof are of one block ({len(blocks)})")
    if len(blocks) != 1:
        return
    b = blocks.pop()
    block = payload_of(b)
    h = rpc(b.a[2][1])
    c.fact(h.name == "get_block_hash" and uncast(h.args[0]) is c.fld(info, "block_height"), f"block-at:{n}", w, f"{n}: the proof is of the block at the request's height: {h}")
    txs = c.fld(block, "txdata")
    tid = lambda i: mk("call", *txid_call(c, t), (mk("nth", txs, i),))
    # where the transaction is
    ix = uncast(index.a[2]) if index.op == "adt" else index
    ok = ix.op == "first" and norm(ix.a[0]) is norm(ln(txs))
    k = mk("sym", "kth", ("num", "usize"))
    body = beta(ix.a[1], [k]) if ok else None
    want = equal(c.fld(info, "txid"), tid(k))
    c.fact(ok and body in want, f"index:{n}", w, f"{n}: the index is that of the request's own transaction in the block: {cut(ix, b)[:200]}")
    # what is passed about it
    x = txid.a[2][0] if is_call(txid, "buff_from") else txid
    c.fact(norm(x) in [norm(mk("rev", tid(ix))), norm(mk("rev", c.fld(info, "txid")))], f"txid:{n}", w, f"{n}: the id passed is the request's own, byte reversed: {cut(x, b)[:160]}")
    hx = uncast(height.a[2]) if height.op == "adt" else height
    hp = unwrap(hx)
    c.fact(hx is c.fld(info, "block_height") or is_call(hp, "bip34_block_height") and hp.a[2][0] is block, f"height:{n}", w, f"{n}: the height passed is the block's: {cut(hx, b)[:100]}")
    hb = c.fld(block, "header")
    f = lambda i: mk("fld", hb, i)
    num = lambda i: mk("spr", mk("ibytes", "le", 4, f(i)))
    x = header.a[2][0] if is_call(header, "buff_from") else header
    raw = norm(cat([num(0), mk("spr", f(1)), mk("spr", f(2)), num(3), num(4), num(5)]))
    c.fact(norm(x) is raw or is_call(x, "serialize") and x.a[2][0] is hb, f"header:{n}", w, f"{n}: the header passed is the block's: {cut(x, b)[:300]}")
    # the path
    data = None
    if path.op == "adt" and vname(c, path) == "Sequence" and path.a[2].op == "adt" and vname(c, path.a[2]) == "List":
        data = named(c, path.a[2].a[2], "data")
    elif is_call(path, "list_from"):
        data = path.a[2][0]
    pc = [q for q in subterms(path) if q.op == "call" and q.a[0].endswith("BitcoinMerkleTree::proof")]
    ok = data is not None and data.op == "flat" and len(set(pc)) == 1
    c.fact(ok, f"path:{n}", w, f"{n}: the hashes passed are made from one Merkle proof: {cut(path, b)[:200]}")
    if not ok:
        return
    p = engine.ENG.proj(engine.ENG.proj(pc[0], ("v", 1)), ("f", 0))
    e = beta(data.a[1], [k])
    e = e.a[0].a[0] if e.op == "cat" and len(e.a) == 1 and e.a[0].op == "one" else e
    e = unwrap(e)
    c.fact(norm(data.a[0]) is norm(ln(p)) and is_call(e, "buff_from") and e.a[2][0] is mk("nth", p, k), f"hashes:{n}", w, f"{n}: every hash of the proof is passed, in order, unaltered: {cut(e, b)[:160]}")
    tree, at = pc[0].a[2]
    c.fact(uncast(at) is ix, f"proof-index:{n}", w, f"{n}: the proof is that of the transaction's own index: {cut(at, b)[:100]}")
    ok = is_call(tree, "new") and "BitcoinMerkleTree" in tree.a[0]
    lv = tree.a[2][0] if ok else None
    ok = ok and lv.op == "flat" and norm(lv.a[0]) is norm(ln(txs)) and beta(lv.a[1], [k]) is cat([mk("one", tid(k))])
    c.fact(ok, f"leaves:{n}", w, f"{n}: the proof is made over the ids of all the block's transactions, in order: {cut(tree, b)[:200]}")


def payload_of(call):
    return engine.ENG.proj(engine.ENG.proj(call, ("v", 0)), ("f", 0))


def txid_call(c, t):
    for r in t.log:
        if r.kind == "call" and r.name.endswith("Transaction::txid"):
            return r.res.a[0], r.res.a[1]
    raise Shape("no transaction's id is looked at")


def equal(a, b):
    e = [mk("eq", a, b), mk("eq", b, a)]
    return [boolify(x) for x in e]


def cut(x, b):
    return show(x).replace(show(b), "BLOCK")


PARTS = [calls]
