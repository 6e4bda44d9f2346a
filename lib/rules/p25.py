"""Every task variant's future, as spawned by the event loop, is run symbolically to the event it reports: a term over
what the nodes answered to which request. Event variant, subject, and the origin of every part of the report are read
off that term and compared with a table; the loop itself must spawn one future per task handed out, with its own
configuration and clients, reporting to the channel the loop reads."""
from fw import *
from rio import *

SCOPE = "romeo"
LEVEL = "other"
RULE = "one future per task handed out; each sends exactly one event, of the variant and subject the task asks for, whose contents are the node's answer to a request about that subject"
ASSUME = ["the nodes answer truthfully", "repeated requests within one task are answered alike"]

OPAQUE = ("ProofData::from_block_and_index", "ProofData::to_values")


def spawned(c):
    K = Tasks(c, OPAQUE)
    L = K.L
    ups = {id(L.live[0]): L.live[0].res} if L.live else {}
    boots = [r for r in L.calls if r.name.endswith("State::bootstrap")]
    chan = [r for r in L.calls if "mpsc" in r.name and r.name.endswith("channel")]
    c.fact(len(chan) == 1, "one-channel", L.at(L.recv), f"{len(chan)} channels")
    if len(chan) != 1:
        return
    rx, _ = root(L.recv.args[0])
    rx = L.initial(rx) if L.loopvar(rx) else rx
    c.fact(root(rx)[0] is engine.ENG.proj(chan[0].res, ("f", 1)), "receiver", L.at(L.recv), f"the loop reads the channel: {show(rx)[:80]}")
    for what, src, inside in (("bootstrap", boots[0].res if boots else None, False), ("event", L.live[0].res if L.live else None, True)):
        rs = [(r, f) for r, f in zip(L.spawns if hasattr(L, "spawns") else K.spawns, K.futures) if (L.loop in r.loops) == inside]
        c.fact(len(rs) == 1, f"spawn:{what}", L.at(L.recv), f"tasks of {what} are spawned in one place ({len(rs)})")
        if len(rs) != 1 or src is None:
            continue
        r, (f, caps) = rs[0]
        lp = r.loops[-1]
        c.fact(len(r.loops) == (2 if inside else 1) and lp.k is not None and lp.exc is FALSE and norm(lp.n) is norm(ln(src)), f"every:{what}", L.at(r), f"each task handed out by {what} is spawned once: a loop over {show(lp.n)[:80] if lp.n is not None else 'something else'}")
        if lp.k is None:
            continue
        after = And(L.recv.guard, L.loopvar(L.live[0].args[0])[2]) if inside else L.recv.guard
        c.fact(And(And(after, lt(lp.k, lp.n)), Not(r.guard)) is FALSE, f"always:{what}", L.at(r), f"the loop never goes on without having spawned a task handed out by {what}")
        task = [x for t, x in caps if t == TK]
        c.fact(len(task) == 1 and covers(task[0], src, lp, r.guard), f"task:{what}", L.at(r), f"the task spawned is the one handed out: {show(task[0])[:120] if task else '-'}")
        cfgs = [x for t, x in caps if t == "romeo::config::Config"]
        c.fact(all(x is L.cfg for x in cfgs), f"config:{what}", L.at(r), "tasks run under the relayer's configuration")
        for t, x in caps:
            if t.endswith("Client"):
                c.fact(all(y is L.cfg for y in subterms(x) if y.op == "sym"), f"client:{what}:{t.split('::')[-2]}", L.at(r), "clients are made from the relayer's configuration")
            if t.endswith("Sender"):
                c.fact(x is engine.ENG.proj(chan[0].res, ("f", 0)), f"sender:{what}", L.at(r), "reports go to the loop's channel")


def covers(t, src, lp, g):
    if t.op == "nth" and t.a[0] is src:
        return t.a[1] is lp.k
    return False


TABLE = {
    "GetContractBlockHeight": "ContractBlockHeight",
    "UpdateContractPublicKey": "ContractPublicKeySetBroadcasted",
    "CreateMint": "MintBroadcasted",
    "CreateBurn": "BurnBroadcasted",
    "CreateFulfillment": "FulfillBroadcasted",
    "CheckBitcoinTransactionStatus": "BitcoinTransactionUpdate",
    "CheckStacksTransactionStatus": "StacksTransactionUpdate",
    "FetchStacksBlock": "StacksBlock",
    "FetchBitcoinBlock": "BitcoinBlock",
}


def reports(c):
    K = Tasks(c, OPAQUE)
    M = K.M
    names = [v["n"] for v in c.prog.adts[TK]["v"]]
    c.fact(set(names) == set(TABLE), "tasks", "-", f"the tasks are {names}")
    for n in names:
        if n not in TABLE:
            continue
        try:
            one_report(c, K, M, n)
        except Shape as x:
            c.fact(False, f"report:{n}:shape", "-", f"{n}: {x}")


def one_report(c, K, M, n):
    t = K.run(n)
    sent = t.send
    c.fact(root(sent.args[0])[0] is t.syms.get("out") and not sent.loops, f"sends:{n}", t.where, f"{n} reports once, to the channel it was given")
    aw = [r for r in t.log if r.kind == "call" and r.name == "await" and r.args[0] is sent.res]
    c.fact(bool(aw), f"sent:{n}", t.where, f"{n}: the report is sent, not only prepared")
    want = TABLE[n]
    for lf in leaves(t.event):
        if lf is not BOT:
            c.fact(lf.op == "adt" and lf.a[0] == EV and M.vn(EV, lf.a[1]) == want, f"event:{n}", t.where, f"{n} reports {M.vn(EV, lf.a[1]) if lf.op == 'adt' and lf.a[0] == EV else show(lf)[:80]}, {want} expected")
            if lf.op != "adt" or lf.a[0] != EV or M.vn(EV, lf.a[1]) != want:
                return
    fs = [engine.ENG.proj(t.event, ("f", i)) if t.event.op == "adt" else select([(is_path(t.event, l), l.a[2 + i]) for l in leaves(t.event) if l is not BOT]) for i in range(len(c.prog.adts[EV]["v"][M.vi(EV, want)]["f"]))]
    if t.vals:
        c.fact(simp(t.guard, fs[0]) is t.vals[0], f"subject:{n}", t.where, f"{n} reports on {show(fs[0])[:100]}, not on what it was asked")
    for when, g, v in by_key(c, t, fs[-1]):
        w = f"{n} ({when})"
        if n == "GetContractBlockHeight":
            contract(c, t, w, g, fs, when)
        elif n == "UpdateContractPublicKey":
            broadcast(c, w, t, answer(v))
        elif n in ("CreateMint", "CreateBurn"):
            dummy(c, K, t, w, g, v)
        elif n == "CreateFulfillment":
            for x in leaves(v):
                if x is not BOT and all(own_id(t, y) for y in leaves(simp(t.send.guard, fs[-1])) if y is not BOT):
                    c.fact(True, f"txid:{n}", t.where, f"{w}: the id reported is that of the transaction the node accepted")
                elif x is not BOT:
                    r = rpc(x)
                    c.fact(r.name == "send_raw_transaction", f"txid:{n}", t.where, f"{w}: the id reported is the node's answer to the broadcast, not to {r.name}")
        elif n == "FetchBitcoinBlock":
            for x in leaves(v):
                if x is not BOT:
                    r = rpc(x)
                    h = rpc(r.args[0]) if r.name == "get_block" else None
                    c.fact(h is not None and h.name == "get_block_hash" and strip_cast(h.args[0]) is t.vals[0], f"block:{n}", t.where, f"{w}: the block reported is the one at the height asked for: {r}")
        elif n == "FetchStacksBlock":
            stacks_block(c, t, w, v)


def needs_ok(g, name, seen=None):
    """every way through the condition has the call succeed"""
    seen = {} if seen is None else seen
    if g.op != "g":
        return g is FALSE
    if g in seen:
        return seen[g]
    var, cases, d = g.a
    ok = True
    for lab, ch in list(cases) + ([(None, d)] if d is not None else []):
        good = lab == 0 and var.op == "discr" and var.a[0].op == "call" and var.a[0].a[0].endswith(name)
        ok = ok and (good or needs_ok(ch, name, seen))
    seen[g] = ok
    return ok


def own_id(t, x):
    """the id computed from the very transaction the node has accepted"""
    if not is_call(x, "Transaction::txid"):
        return False
    sends = [r for r in t.log if r.kind == "call" and "RpcApi::" in r.name]
    tx = x.a[2][0]
    return len(sends) == 1 and sends[0].name.endswith("send_raw_transaction") and norm(simp(t.send.guard, sends[0].args[1])) is norm(simp(t.send.guard, tx)) and needs_ok(t.send.guard, "send_raw_transaction")


def strip_cast(x):
    while x.op == "cast" and x.a[0] in ("u32", "u64", "u128", "usize", "i64", "i128"):
        x = [a for a in x.a if isinstance(a, T)][0]
    return x


def contract(c, t, w, g, fs, when):
    a = simp(g, restrict_all(c, t, fs[0], when))
    b = simp(g, restrict_all(c, t, fs[1], when))
    x, y = answer(a), answer(b)
    n = "GetContractBlockHeight"
    p = path_parts(x.req.path)
    c.fact(x.req.method == "get" and p[0] == "/extended/v1/contract/" and len(p) == 2, f"contract:{n}", t.where, f"{w}: the contract's data is asked for: {x.req}")
    own = [q for q in subterms(x.req.path) if q.op == "call" and q.a[0].endswith("QualifiedContractIdentifier::new")]
    ok = False
    if own:
        addr, name = own[0].a[2]
        creds = [q for q in subterms(addr) if q.op == "call" and q.a[0].endswith("Credentials::address")]
        ok = name is c.fld(t.cfg, "contract_name") and bool(creds) and all(is_config_field(c, q.a[2][0], "stacks_credentials") for q in creds)
    c.fact(ok, f"own-contract:{n}", t.where, f"{w}: the contract asked about is the configured one under the relayer's own address")
    c.fact(x.keys == ("block_height",), f"height:{n}", t.where, f"{w}: the first height is the contract's block height, not {'.'.join(x.keys)}")
    c.fact(y.req.method == "get" and path_is(y.req, "/extended/v1/block/by_height/", disp(a)), f"block:{n}", t.where, f"{w}: the second height comes from the block at the first: {y.req}")
    c.fact(y.keys == ("burn_block_height",), f"burn:{n}", t.where, f"{w}: the second height is the block's bitcoin height, not {'.'.join(y.keys)}")


def restrict_all(c, t, v, when):
    for w, g, x in by_key(c, t, v):
        if w == when:
            return x
    return v


def path_parts(p):
    if p.op == "str":
        return [p.a[0]]
    return [x.a[0].a[0] if x.op == "spr" and x.a[0].op == "str" else x for x in p.a] if p.op == "cat" else [p]


def broadcast(c, w, t, a):
    n = w.split()[0]
    c.fact(a.req.method == "post" and path_is(a.req, "/v2/transactions") and a.keys == (), f"txid:{n}", t.where, f"{w}: the id reported is the node's answer to the broadcast: {a}")


def dummy(c, K, t, w, g, v):
    n = w.split()[0]
    strict = boolify(c.fld(t.cfg, "strict"))
    real = 0
    for x in leaves(v):
        if x is BOT:
            continue
        p = And(g, is_path(v, x))
        if x.op == "adt":
            c.fact(And(p, strict) is FALSE, f"strict:{n}", t.where, f"{w}: in strict mode a failed broadcast is never reported as done")
            c.fact(not [y for y in subterms(x) if y.op not in ("adt", "cat", "one", "int")], f"dummy:{n}", t.where, f"{w}: a failed broadcast is reported with a constant id")
        else:
            real += 1
            broadcast(c, w, t, answer(x))
    c.fact(real == 1, f"real:{n}", t.where, f"{w}: a successful broadcast is reported with the node's id")


def stacks_block(c, t, w, v):
    n = "FetchStacksBlock"
    c.fact(v.op == "flat", f"each:{n}", t.where, f"{w}: the transactions reported are made one by one from the block's list: {show(v)[:80]}")
    if v.op != "flat":
        return
    k = mk("sym", "kth", ("num", "usize"))
    xs = beta(v.a[1], [k])
    ok = xs.op == "cat" and len(xs.a) == 1 and xs.a[0].op == "one"
    c.fact(ok, f"one:{n}", t.where, f"{w}: each listed transaction is reported once")
    if not ok:
        return
    d = unwrap(xs.a[0].a[0])
    ok = is_call(d, "consensus_deserialize")
    c.fact(ok, f"decode:{n}", t.where, f"{w}: what is reported is the decoded transaction: {show(d)[:80]}")
    if not ok:
        return
    h = unwrap(d.a[2][0])
    if is_call(h, "decode"):
        h = h.a[2][0]
    a = answer(unhex(h))
    p = path_parts(a.req.path)
    c.fact(a.req.method == "get" and len(p) == 3 and p[0] == "/extended/v1/tx/" and p[2] == "/raw" and a.keys == ("raw_tx",), f"raw:{n}", t.where, f"{w}: its bytes are the node's for that id: {a}")
    if len(p) != 3:
        return
    q = p[1].a[0] if isinstance(p[1], T) and p[1].op == "spr" else p[1]
    q = q.a[0] if q.op == "disp" else q
    q = unwrap(q)
    if is_call(q, "from_hex"):
        q = q.a[2][0]
    q = unhex(q)
    q = unwrap(q)
    while is_call(q, "as_str", "to_string") or q.op == "cat" and len(q.a) == 1:
        q = unwrap(q.a[2][0] if q.op == "call" else q.a[0].a[0])
    ok = q.op == "nth" and q.a[1] is k
    c.fact(ok, f"kth:{n}", t.where, f"{w}: the k-th transaction reported is the k-th listed: {show(q)[:80]}")
    if not ok:
        return
    b = answer(q.a[0])
    c.fact(b.req.method == "get" and path_is(b.req, "/extended/v1/block/by_height/", disp(t.vals[0])) and b.keys == ("txs",), f"list:{n}", t.where, f"{w}: the list is that of the block at the height asked for: {b}")
    c.fact(norm(v.a[0]) is norm(ln(q.a[0])), f"all:{n}", t.where, f"{w}: every listed transaction is reported: {show(v.a[0])[:80]}")


def unhex(h):
    while is_call(h, "replace", "trim_start_matches", "strip_prefix", "to_string", "to_owned", "unwrap_or"):
        if h.a[0].endswith("replace") and not (h.a[2][1].op == "str" and h.a[2][1].a[0] == "0x" and h.a[2][2].op == "str" and h.a[2][2].a[0] == ""):
            break
        h = h.a[2][0]
        h = unwrap(h) if is_call(unwrap(h), "strip_prefix") else h
    return h


PARTS = [spawned, reports]
