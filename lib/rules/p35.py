"""The summary of a Bitcoin block gives each request list as the old list with, after it, one term over a generic
transaction of the block: what is recorded for it, and when. That term is compared with the parser's result for the very
transaction."""
from fw import *
from romeo import *
from rio import is_call, unwrap, is_config_field

SCOPE = "romeo"
LEVEL = "other"
RULE = "each block adds, for each of its transactions in order, one record exactly when the parser takes it and it names the relayer's wallet, with the parser's amount and parties, the transaction's id and the block's height, nothing ordered yet; no other event adds records"
ASSUME = ["the parsers say what the transaction says (P03, P04, P05)", "the two Stacks libraries write and read the same binary form of a principal"]

PARSE = {"deposits": "deposit::Deposit::parse", "withdrawals": "try_parse_withdrawal_request"}
OUT = {"deposits": ("sbtc_core::operations::op_return::deposit::Deposit", "sbtc_wallet_address", {"amount": "amount", "recipient": "recipient"}),
       "withdrawals": ("WithdrawalRequestData", "sbtc_wallet", {"amount": "amount", "source": "drawee_stacks_address", "recipient": "payee_bitcoin_address"})}
SAME = ("consensus_deserialize", "serialize_to_vec", "deserialize", "new", "from", "into", "clone", "to_account_principal", "try_from", "as_ref", "consensus_serialize")


def peel(x):
    for _ in range(12):
        y = unwrap(x)
        if y.op == "conv":
            y = y.a[-1]
        elif y.op == "call" and y.a[0].split("::")[-1] in SAME and y.a[2]:
            y = y.a[2][0]
        if y is x:
            return x
        x = y
    return x


def field(c, x, base, ty, name):
    """x is the parser's field of that name"""
    ps = [p for p in c.prog.adts if p == ty or p.endswith("::" + ty)]
    i = None
    for p in ps:
        for j, f in enumerate(c.prog.adts[p]["v"][0]["f"]):
            if f["n"] == name:
                i = j
    if i is None:
        raise Shape(f"{ty}.{name} is gone")
    return engine.ENG.proj(base, ("f", i))


def recorded(c):
    M = Machine(c)
    s = M.step(INIT, "BitcoinBlock")
    h, b = [M.event("BitcoinBlock").a[2 + i] for i in range(2)]
    if tyof(h) is not None and "Block" in str(tyof(h)):
        h, b = b, h
    for L in ("deposits", "withdrawals"):
        one_list(c, M, s, L, h, b)


def one_list(c, M, s, L, h, b):
    w = s.where()
    X = M.lst(L)
    Y, Z = M.base(s, L)
    ok = Z is not X and Z.op == "cat" and len(Z.a) == 2
    c.fact(ok, f"{L}:added", w, f"a block adds to {L}: {show(Z)[:80]}")
    if not ok:
        return
    new = Z.a[1].a[0] if Z.a[1].op == "spr" else None
    ok = new is not None and new.op == "flat"
    c.fact(ok, f"{L}:each", w, f"{L} are added transaction by transaction, in order: {show(Z.a[1])[:80]}")
    if not ok:
        return
    txs = c.fld(b, "txdata")
    c.fact(norm(new.a[0]) is norm(ln(txs)), f"{L}:all", w, f"every transaction of the block is looked at: {show(new.a[0])[:80]}")
    k = mk("sym", "kth", ("num", "usize"))
    tx = nth(txs, k)
    rec = beta(new.a[1], [k])
    calls = {x for x in subterms(rec) if x.op == "call" and x.a[0].endswith(PARSE[L])}
    c.fact(len(calls) == 1, f"{L}:parsed", w, f"one parser decides: {sorted(x.a[0] for x in calls)}")
    if len(calls) != 1:
        return
    p = calls.pop()
    net, arg = p.a[2][0], p.a[2][1]
    own = net.a[0] if net.op == "fld" and is_call(net.a[0], "BitcoinCredentials::address_p2tr") and c.fld(net.a[0], "network") is net else net
    okn = is_config_field(c, net, "bitcoin_network") or is_call(own, "BitcoinCredentials::address_p2tr") and own is not net and is_config_field(c, own.a[2][0], "bitcoin_credentials") or (is_call(net, "BitcoinCredentials::network") and is_config_field(c, net.a[2][0], "bitcoin_credentials"))
    c.fact(okn, f"{L}:network", w, f"read on the configured network: {show(net)[:80]}")
    c.fact(arg is tx or (is_call(arg, "clone") and arg.a[2][0] is tx), f"{L}:transaction", w, f"the parser is given the very transaction: {show(arg)[:80]}")
    got = engine.ENG.proj(engine.ENG.proj(p, ("v", 0)), ("f", 0))
    ty, addr, fields = OUT[L]
    mine = [x for x in subterms(rec) if is_call(x, "BitcoinCredentials::address_p2tr") and is_config_field(c, x.a[2][0], "bitcoin_credentials")]
    c.fact(bool(mine), f"{L}:wallet", w, "the relayer's own taproot address decides")
    if not mine:
        return
    want = And(is_label(engine.ENG.discr(p), 0), boolify(eq(field(c, p, got, ty, addr), mine[0])))
    given = FALSE
    for lf in leaves(rec):
        if lf is BOT or lf is EMPTY:
            continue
        on = is_path(rec, lf)
        given = Or(given, on)
        ok = lf.op == "cat" and len(lf.a) == 1 and lf.a[0].op == "one"
        c.fact(ok, f"{L}:one", w, f"a transaction makes one record: {show(lf)[:80]}")
        if ok:
            record(c, M, w, L, simp(on, lf.a[0].a[0]), p, got, tx, h, b, ty, fields)
    g = And(s.cur, lt(k, ln(txs)))
    c.fact(And(And(g, given), Not(want)) is FALSE, f"{L}:only", w, f"only operations to the relayer's wallet are recorded; recorded when {show(given)[:200]}")
    c.fact(And(And(g, want), Not(given)) is FALSE, f"{L}:every", w, f"every operation to the relayer's wallet is recorded; recorded only when {show(given)[:200]}")


def record(c, M, w, L, x, p, got, tx, h, b, ty, fields):
    P = DP if L == "deposits" else WD
    ok = x.op == "adt" and x.a[0] == P
    c.fact(ok, f"{L}:record", w, f"a record of {L}: {show(x)[:80]}")
    if not ok:
        return
    for q in M.reqnames(L):
        r = x.a[2 + M.fi(P, q)]
        c.fact(r is NONE, f"{L}:{q}:new", w, f"a new record has no {q} yet: {show(r)[:80]}")
    info = x.a[2 + M.fi(P, "info")]
    ip = info.a[0] if info.op == "adt" else None
    c.fact(ip is not None, f"{L}:info", w, f"the record's data: {show(info)[:80]}")
    if ip is None:
        return
    for i, f in enumerate(c.prog.adts[ip]["v"][0]["f"]):
        v, n = info.a[2 + i], f["n"]
        if n == "txid":
            c.fact(is_call(v, "Transaction::txid") and (v.a[2][0] is tx or (is_call(v.a[2][0], "clone") and v.a[2][0].a[2][0] is tx)), f"{L}:txid", w, f"the id is the transaction's own: {show(v)[:80]}")
        elif n == "block_height":
            y = v
            while y.op == "cast":
                y = y.a[1]
            y = unwrap(y)
            c.fact(v is h or (is_call(y, "Block::bip34_block_height") and y.a[2][0] is b), f"{L}:block_height", w, f"the height is that of the block: {show(v)[:80]}")
        elif n in fields:
            y = field(c, p, got, ty, fields[n])
            c.fact(v is y or (n in ("recipient", "source") and peel(v) is y), f"{L}:{n}", w, f"{n} is the operation's own {fields[n]}: {show(v)[-120:]}")
        else:
            c.fact(False, f"{L}:{n}", w, f"{n} of a record of {L} has no documented origin")


def others(c):
    M = Machine(c)
    for ev in M.events() + [None]:
        if ev == "BitcoinBlock":
            continue
        s = M.step(INIT, ev) if ev is not None else M.boot(INIT)
        if s.cur is FALSE:
            continue
        for L in ("deposits", "withdrawals"):
            _, Z = M.base(s, L)
            c.fact(Z is M.lst(L), f"{ev or 'restart'}:{L}", s.where(), f"{ev or 'restart'} adds nothing to {L}")


PARTS = [recorded, others]
