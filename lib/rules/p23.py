"""Every task that sends a Stacks transaction is run symbolically to the request it posts. The body posted is read
backwards: serialisation, signing, and everything set on the transaction before it was signed, down to the contract
call the task made. The lock of the shared client is followed through the effects: it is taken once before the nonce
is asked for and not released before the transaction is posted."""
from fw import *
from rio import *
import p22

SCOPE = "romeo"
LEVEL = "other"
RULE = "body posted = serialise(sign(own key, call with nonce = next free nonce of own address, fee = rate of the node x length x constant, chain of the network)); nonce request and post under one hold of the one shared client; one post per task"
ASSUME = ["the signer signs what it is given", "the node's answers about nonce and fee rate are right when given", "HTTP retries repeat the same request"]

SENDERS = ("UpdateContractPublicKey", "CreateMint", "CreateBurn")
TX = "StacksTransaction"


def sends(c):
    K = Tasks(c, p22.OPAQUE)
    names = [v["n"] for v in c.prog.adts[TK]["v"]]
    for n in names:
        try:
            t = K.run(n)
            posts = [r for r in t.log if r.kind == "call" and transmits(r) and method(r) == "post"]
            if n not in SENDERS:
                c.fact(not posts, f"no-post:{n}", t.where, f"{n} sends nothing to the Stacks network ({len(posts)})")
                continue
            c.fact(len(posts) == 1 and not posts[0].loops, f"one-post:{n}", t.where, f"{n} posts one transaction, once ({len(posts)})")
            if len(posts) == 1:
                q = posts[0].args[1] if posts[0].name.endswith("execute") else posts[0].args[0]
                for when, g, x in by_key(c, t, q):
                    one_send(c, K, t, n, posts[0], x, when)
        except Shape as x:
            c.fact(False, f"shape:{n}", "-", f"{n}: {x}")


def transmits(r):
    return r.name.startswith("reqwest::") and (r.name.endswith("Client::execute") or r.name.endswith("RequestBuilder::send"))


def method(r):
    q = r.args[1] if r.name.endswith("execute") else r.args[0]
    ms = {request(x).method for x in leaves(unwrap(q)) if x is not BOT}
    return ms.pop() if len(ms) == 1 else "different methods"


def one_send(c, K, t, n, post, q, when):
    w = f"{post.site} {n} {when}"
    rq = request(q)
    b = rq.body
    c.fact(b is not None, f"body:{n}", w, f"{n}: something is posted")
    if b is None:
        return
    c.fact(path_is(rq, "/v2/transactions") and not rq.query and is_config_field(c, rq.base, "stacks_node_url"), f"where:{n}", w, f"{n}: it is posted to the configured node: {rq}")
    # body = serialise(tx)
    ser = b.a[0] if b.op == "mut" else unwrap(b)
    ok = ser.op == "call" and ser.a[0].split("::")[-1] in ("consensus_serialize", "serialize_to_vec") and (b.op != "mut" or norm(ser.a[2][1]) is cat([]))
    c.fact(ok, f"body:{n}", w, f"{n}: the body posted is the serialised transaction: {show(b)[:160]}")
    if not ok:
        return
    tx = unwrap(ser.a[2][0])
    ok = is_call(tx, "StacksTransactionSigner::get_tx")
    c.fact(ok, f"signed:{n}", w, f"{n}: the transaction serialised is the signed one: {show(tx)[:160]}")
    if not ok:
        return
    signer, chain = root(tx.a[2][0])
    ms = [k.a[0].split("::")[-1] for k in chain]
    c.fact(ms == ["sign_origin"] and is_call(signer, "StacksTransactionSigner::new"), f"signer:{n}", w, f"{n}: it is signed once, as origin: {ms}")
    if ms != ["sign_origin"] or not is_call(signer, "StacksTransactionSigner::new"):
        return
    key = chain[0].a[2][1]
    ks = p22.creds(c, key)
    c.fact(bool(ks) and all(k.a[0].endswith("::private_key") and p22.own(c, k) for k in ks) and not p22.only(key, "from_slice", "secret_bytes", "private_key", "from_hex", "to_bytes", "as_ref", "lock"), f"key:{n}", w, f"{n}: it is signed with the relayer's own key: {show(key)[:160]}")
    made = [r.res for r in t.calls("StacksTransaction::new")]
    sets, over, base = layers(c, signer.a[2][0])
    c.fact(base in made and len(made) == 1, f"call:{n}", w, f"{n}: what is signed is the contract call the task made: {show(base)[:120]}")
    c.fact(sorted(k for k, v, x in sets) == ["set_origin_nonce", "set_tx_fee"], f"set:{n}", w, f"{n}: nonce and fee are set once each before signing: {[k for k, v, x in sets]}")
    unknown = set(over) - {"chain_id", "anchor_mode", "post_condition_mode"}
    c.fact(not unknown, f"untouched:{n}", w, f"{n}: no other part of the call is changed before signing: {sorted(unknown)}")
    for name, want in (("anchor_mode", "Any"), ("post_condition_mode", "Allow")):
        if name in over:
            x = over[name]
            c.fact(x.op == "adt" and p22.vname(c, x) == want, f"{name}:{n}", w, f"{n}: {name} is {show(x)[:60]}, {want} expected")
        else:
            c.fact(False, f"{name}:{n}", w, f"{n}: {name} is left as the library makes it")
    chain_id(c, t, n, w, over.get("chain_id"))
    asked = None
    for k, v, x in sets:
        if k == "set_origin_nonce":
            asked = nonce(c, t, n, w, v)
        if k == "set_tx_fee":
            fee(c, t, n, w, v, base)
    lock(c, K, t, n, w, post, asked)


def layers(c, tx):
    """what was set on a transaction value: setters in use (innermost last), overridden fields, and what it started as"""
    sets, over = [], {}
    while True:
        if tx.op == "adt" and tx.a[0].endswith(TX):
            fs = c.prog.adts[tx.a[0]]["v"][0]["f"]
            kept = {}
            for j, (f, v) in enumerate(zip(fs, tx.a[2:])):
                if v.op == "fld" and v.a[1] == j:
                    kept.setdefault(v.a[0], []).append(f["n"])
                else:
                    over.setdefault(f["n"], v)
            if len(kept) != 1:
                raise Shape("a transaction put together from several: " + show(tx)[:120])
            tx = next(iter(kept))
        elif tx.op == "mut" and tx.a[0].op == "call":
            m = tx.a[0].a[0].split("::")[-1]
            if tx.a[1] != 0 or not tx.a[0].a[0].endswith(f"{TX}::{m}"):
                raise Shape("a transaction changed by " + tx.a[0].a[0])
            sets.append((m, tx.a[0].a[2][1] if len(tx.a[0].a[2]) > 1 else TRUE, tx.a[0].a[2][0]))
            tx = tx.a[0].a[2][0]
        else:
            return sets, over, tx


def chain_id(c, t, n, w, x):
    c.fact(x is not None, f"chain:{n}", w, f"{n}: the chain is set")
    if x is None:
        return
    ds = [q for q in subterms(x) if q.op == "discr" and is_config_field(c, q.a[0], "stacks_network")]
    want = {"Mainnet": 1, "Testnet": 0x80000000}
    ty = [a for a in c.prog.adts if a == "stacks_core::Network"] or [a for a in c.prog.adts if a.endswith("::Network") and {v["n"] for v in c.prog.adts[a]["v"]} == set(want)]
    vs = [v["n"] for v in c.prog.adts[ty[0]]["v"]]
    for i, v in enumerate(vs):
        y = restrict(x, [(d, i) for d in ds]) if ds else x
        c.fact(y is I(want[v]), f"chain:{n}:{v}", w, f"{n}: on {v} the chain id is {show(y)[:40]}")


def nonce(c, t, n, w, v):
    f = v
    ok = f.op == "fld" and isinstance(f.a[0], T)
    name = None
    if ok:
        ty = unref(tyof(f.a[0]))
        if ty is not None and ty[0] == "adt" and ty[1] in c.prog.adts:
            name = c.prog.adts[ty[1]]["v"][0]["f"][f.a[1]]["n"]
        else:
            # the answer's only struct with such a field
            own = [a for a in c.prog.adts if a.startswith("romeo::") and any(x["n"] == "possible_next_nonce" for x in c.prog.adts[a]["v"][0]["f"])]
            name = c.prog.adts[own[0]]["v"][0]["f"][f.a[1]]["n"] if len(own) == 1 else None
    a = None
    try:
        a = answer(f.a[0]) if name else answer(v)
        name = name or (a.keys[-1] if a.keys else None)
    except Shape:
        pass
    c.fact(name == "possible_next_nonce" and a is not None, f"nonce:{n}", w, f"{n}: the nonce is the next free one the node reports: {show(v)[:100]}")
    if a is None:
        return
    r, p = a.req, a.req.path
    ks = p22.creds(c, p)
    ok = r.method == "get" and p.op == "cat" and len(p.a) == 3 and p.a[0].a[0] is S("/extended/v1/address/") and p.a[2].a[0] is S("/nonces") and len(set(ks)) == 1 and ks[0].a[0].endswith("::address") and p22.own(c, ks[0]) and p.a[1].a[0] is disp(ks[0])
    c.fact(ok and is_config_field(c, r.base, "stacks_node_url"), f"nonce-of:{n}", w, f"{n}: the nonce asked for is that of the relayer's own address: {r}")
    return p


def path_of(r):
    q = r.args[1] if r.name.endswith("execute") else r.args[0]
    ps = {request(x).path for x in leaves(unwrap(q)) if x is not BOT}
    return ps.pop() if len(ps) == 1 else None


def fee(c, t, n, w, v, base):
    ok = v.op == "lin" and v.a[0] == 0 and len(v.a[1]) == 1 and v.a[1][0][1] > 0
    m = v.a[1][0][0] if ok else v
    fs = [uncast(x) for x in m.a if isinstance(x, T)] if m.op == "mul" else [uncast(m)]
    lens = [x for x in fs if is_call(x, "tx_len")]
    rates = [x for x in fs if not is_call(x, "tx_len")]
    c.fact(len(lens) == 1, f"fee-length:{n}", w, f"{n}: the fee grows with the transaction's length: {show(v)[:160]}")
    if lens:
        s, o, b = layers(c, lens[0].a[2][0])
        c.fact(b is base, f"fee-of:{n}", w, f"{n}: the length is that of this transaction")
    c.fact(len(rates) == 1, f"fee-rate:{n}", w, f"{n}: the fee is a rate times the length: {show(v)[:160]}")
    if len(rates) == 1:
        a = answer(rates[0])
        c.fact(a.req.method == "get" and path_is(a.req, "/v2/fees/transfer") and a.keys == (), f"fee-from:{n}", w, f"{n}: the rate is the node's: {a}")


def uncast(x):
    return p22.uncast(x)


def lock(c, K, t, n, w, post, nonce):
    ls = [r for r in t.log if r.kind == "call" and r.name.endswith("Mutex::lock") and r.idx < post.idx]
    rel = [r for r in t.log if (r.kind == "release" or r.kind == "call" and r.name.endswith("mem::drop") and "lock(" in show(r.args[0])) and r.idx < post.idx]
    ask = [r for r in t.log if r.kind == "call" and transmits(r) and nonce is not None and path_of(r) is nonce]
    c.fact(len(ask) == 1 and len(ls) >= 1, f"asked:{n}", w, f"{n}: the nonce is asked for once, with the shared client locked ({len(ask)}, {len(ls)})")
    if len(ask) != 1 or not ls:
        return
    c.fact(any(l.idx < ask[0].idx and not [x for x in ls if l.idx < x.idx] and not [x for x in rel if l.idx < x.idx] for l in ls), f"held:{n}", w, f"{n}: the client stays locked from the nonce request to the post ({len(ls)} locks, {len(rel)} releases before it)")
    h = ls[-1].res
    client = lambda r: r.args[0] if r.name.endswith("execute") else None
    for r in (ask[0], post):
        x = client(r)
        c.fact(x is not None and any(y is h for y in subterms(x)), f"through:{n}:{method(r)}", w, f"{n}: the request is made through the locked client: {show(x)[:100] if x is not None else r.name}")
    # the lock all tasks share
    p = ls[-1].args[0]
    y, _ = root(p)
    while y.op == "fld":
        y = y.a[0]
    c.fact(y is t.syms.get("stacks"), f"shared:{n}", w, f"{n}: the lock taken is the one the task was given: {show(p)[:100]}")


def shared(c):
    K = Tasks(c, p22.OPAQUE)
    L = K.L
    ms = [r for r in L.calls if r.name.endswith("Mutex::new") and any(x.op == "adt" and x.a[0].endswith("::StacksClient") for x in subterms(r.args[0]))]
    c.fact(len(ms) == 1 and not ms[0].loops, "one-client", L.at(L.recv), f"the relayer makes one Stacks client, once ({len(ms)})")
    hs = {x for f, caps in K.futures for t, x in caps if t.endswith("LockedClient")}
    c.fact(len(hs) == 1 and len(ms) == 1 and any(y is ms[0].res for x in hs for y in subterms(x)), "same-client", L.at(L.recv), "all tasks share it")
    c.fact(all(sum(t.endswith("LockedClient") for t, x in caps) == 1 for f, caps in K.futures), "given-client", L.at(L.recv), "each task is given it")
    for im in c.prog.impls:
        if im.get("trait") == "core::clone::Clone" and "StacksClient" in str(im.get("self")) and "Locked" not in str(im.get("self")):
            c.fact(False, "no-clone", "-", "the Stacks client behind the lock can be copied")


PARTS = [sends, shared]
