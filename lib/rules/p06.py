"""Abstract interpretation of every transaction builder: the list of outputs handed to the wallet,
the list the transaction is reordered to and the extraction of the signed transaction are terms over
the builder's parameters, compared with the documented outputs; the reordering function itself is
shown to be a stable permutation that puts every requested output at its requested place; the parser
applied to the built outputs (followed by arbitrary others) gives back what was asked for."""
from oplib import *
import p02, p04
from p04 import byrole, isadt, U64, hash160

LEVEL = "other"
RULE = "outputs = documented list; built tx = extract(sign(reorder(finish(add_recipient*(outputs)), outputs))); dust refused; parse(build(x)) = x"
ASSUME = ["the wallet library adds the recipients it is given, signs and extracts faithfully", "Address::from_script undoes script_pubkey on the address' own network",
          "recovering from a signature over the same message gives the signer's key"]
OR = "sbtc_core::operations::op_return::"
REORDER = OR + "utils::reorder_outputs"


def op_script(c, op, net, payload):
    d = cat([mk("spr", spec.magic(c, net)), one(I(op)), mk("spr", payload)])
    return script_(c, d)


def script_(c, d):
    return mk("script", cat([one(adt("SOP", 0, I(spec.OP_RETURN))), one(adt("SPUSH", 0, d))]))


def spk(c, addr):
    return settype(mk("call", "bitcoin::util::address::Address::script_pubkey", None, (addr,)), ("adt", spec.adtpath(c, "bitcoin::blockdata::script::Script"), ()))


def dust(c, sc):
    a = ("adt", spec.adtpath(c, "bitcoin::util::amount::Amount"), ())
    return settype(mk("call", "bitcoin::blockdata::script::Script::dust_value", None, (sc,)), a)


def isprin(t):
    return t == ("adt", spec.PRIN, ())


def isblock(t):
    return t == ("adt", spec.BLOCKID, ())


class B:
    """documented outputs of each kind of operation, over the roles of the parameters"""

    def __init__(self, c):
        self.c = c

    def deposit(self, a):
        sc = spk(self.c, a["wallet"])
        d = cat([mk("spr", spec.principal(self.c, a["recipient"]))])
        return [(op_script(self.c, 60, a["net"], d), ZERO), (sc, a["amount"])], Not(lt(a["amount"], dust(self.c, sc)))

    def withdrawal(self, a):
        c = self.c
        sg = settype(mk("call", "secp256k1::Secp256k1::sign_ecdsa_recoverable", None, (mk("call", "secp256k1::Secp256k1::new", None, ()), p04.message(c, a["amount"], a["payee"]), a["key"])), ("adt", spec.RSIG, ()))
        d = cat([mk("spr", spec.be(8, a["amount"])), mk("spr", p02.sig_layout(c, sg))])
        p, w = spk(c, a["payee"]), spk(c, a["wallet"])
        return [(op_script(c, 62, a["net"], d), ZERO), (p, dust(c, p)), (w, a["fee"])], Not(lt(a["fee"], dust(c, w)))

    def fulfillment(self, a):
        d = cat([mk("spr", spec.limbs(self.c, self.c.core_of(a["tip"])))])
        return [(op_script(self.c, 33, a["net"], d), ZERO), (spk(self.c, a["payee"]), a["amount"])], TRUE


def same_seq(c, G, got, want, key, where, msg):
    return c.same(G, got, lst([tup(x, y) for x, y in want]), key, where, msg)


def args_by_pos(c, bid, order):
    """parameters by type, those of the same type in the documented order"""
    b = c.prog.bodies[bid]
    tys = [unref(c.prog.ltypes(b)[i + 1]) for i in range(b["args"])]
    out = {}
    used = set()
    for role, f in order:
        for i, t in enumerate(tys):
            if i not in used and t is not None and f(t):
                used.add(i)
                out[role] = i
                break
        else:
            raise Missing(f"parameter {role} of {b['name']}")
    return out


ADDRT = isadt("util::address::Address")
NETT = isadt("::Network")
WALLET = isadt("bdk::wallet::Wallet")

SIGS = {
    "deposit": [("recipient", isprin), ("wallet", ADDRT), ("amount", U64), ("net", NETT)],
    "withdrawal": [("key", isadt("::SecretKey")), ("payee", ADDRT), ("wallet", ADDRT), ("amount", U64), ("fee", U64), ("net", NETT)],
    "fulfillment": [("tip", isblock), ("net", NETT), ("payee", ADDRT), ("amount", U64)],
}


def outputs_of(c):
    """functions that make the list of outputs"""
    for name, kind in ((OR + "withdrawal_request::create_outputs", "withdrawal"), (OR + "withdrawal_fulfillment::create_outputs", "fulfillment")):
        bid = c.fn(name)
        r = args_by_pos(c, bid, SIGS[kind])
        s = c.run(bid)
        a = {k: s.args[i] for k, i in r.items()}
        want, ok = getattr(B(c), kind)(a)
        v = valid_args(c, a)
        same_seq(c, And(s.ok, v), s.okval, want, f"{kind}:create_outputs", s.where(), "the outputs are not the documented ones")
        c.implies(s.ok, ok, f"{kind}:dust", s.where(), "an amount below the dust limit is accepted")
        c.implies(And(ok, v), s.ok, f"{kind}:total", s.where(), "a request whose amounts are above the dust limit is refused")


def valid_args(c, a):
    g = TRUE
    for x in a.values():
        t = tyof(x)
        if t is not None and t[0] == "adt" and t[1] == spec.PRIN:
            g = And(g, p02.valid(c, eta(c.prog, x, t)))
    return g


BUILDERS = [
    (OR + "deposit::build_deposit_transaction", "deposit", True),
    (OR + "deposit::create_partially_signed_deposit_transaction", "deposit", False),
    (OR + "withdrawal_request::create_psbt", "withdrawal", False),
    (OR + "withdrawal_request::build_withdrawal_tx", "withdrawal", True),
    (OR + "withdrawal_fulfillment::create_psbt", "fulfillment", False),
    (OR + "withdrawal_fulfillment::build_withdrawal_fulfillment_tx", "fulfillment", True),
]


def typed(t, ty):
    if t.op == "g":
        return apply(None, lambda x: typed(x, ty), t)
    return settype(t, ty) if t is not BOT and t.op != "adt" else t


def unmut(t):
    """(call, argument number) a value was last changed by"""
    return (t.a[0], t.a[1]) if t.op == "mut" else (None, None)


def builder(c, name, kind, full, s, a, key):
    e = engine.ENG
    w = s.where()
    want, ok = getattr(B(c), kind)(a)
    V_ = valid_args(c, a)
    G = And(s.ok, V_)
    v = simp(G, s.okval)
    if full:
        isx = v.op == "call" and v.a[0].endswith("PartiallySignedTransaction::extract_tx")
        if not c.fact(isx, f"{key}:extract", w, f"the transaction returned is not extracted from the signed one: {show(v)[:300]}"):
            return
        v = v.a[2][0]
        call, i = unmut(v)
        signed = call is not None and call.a[0].endswith("Wallet::sign") and i == 1
        if not c.fact(signed, f"{key}:signed", w, f"the transaction returned is not the signed one: {show(v)[:300]}"):
            return
        c.implies(G, is_label(e.discr(call, ("adt", RES, (None, None))), 0), f"{key}:sign-checked", w, "a failure to sign is ignored")
        wal = call.a[2][0]
        if "bdk" in a:
            c.fact(wal is a["bdk"], f"{key}:wallet", w, "the transaction is not signed by the wallet given")
        v = call.a[2][1]
    psbt = ("adt", spec.adtpath(c, "psbt::PartiallySignedTransaction"), ())
    txt = ("adt", spec.adtpath(c, "bitcoin::blockdata::transaction::Transaction"), ())
    pf = lambda x: typed(c.fld(typed(x, psbt), "unsigned_tx"), txt)
    ut = pf(v)
    outs = norm(c.fld(ut, "output"))
    isr = outs.op == "call" and outs.a[0] == REORDER
    if not c.fact(isr, f"{key}:reordered", w, f"the outputs of the transaction are not put into the documented order before it is signed: {show(outs)[:300]}"):
        return
    src, order = outs.a[2]
    same_seq(c, G, order, want, f"{key}:order", w, "the outputs are not the documented ones in the documented order")
    # where do the outputs come from
    fins = [x for x in set(subterms(src)) if x.op == "call" and x.a[0].endswith("TxBuilder::finish")]
    tops = [x for x in fins]
    if not c.fact(len(tops) == 1, f"{key}:finish", w, "the transaction is not made by the wallet's builder"):
        return
    fin = tops[0]
    base = e.proj(e.payload(fin, 0), ("f", 0))
    c.same(G, src, c.fld(pf(base), "output"), f"{key}:all-outputs", w, "not all the outputs made by the wallet are kept")
    # nothing else of the transaction is changed
    for f in ("version", "lock_time", "input"):
        c.same(G, c.fld(ut, f), c.fld(pf(base), f), f"{key}:keep-{f}", w, f"the transaction's {f} is changed after it was made")
    # recipients added to the builder
    added, b, replaced = [], fin.a[2][0], False
    while True:
        call, i = unmut(b)
        if call is None:
            break
        n = call.a[0].split("::")[-1]
        if n == "add_recipient" and not replaced:
            added.append((call.a[2][1], call.a[2][2]))
        elif n == "set_recipients":
            xs = as_list(norm(call.a[2][1])) if not replaced else []
            if c.fact(xs is not None, f"{key}:recipients-list", w, f"the list of recipients is unknown: {show(call.a[2][1])[:200]}"):
                added += [(e.proj(x, ("f", 0)), e.proj(x, ("f", 1))) for x in reversed(xs)]
            replaced = True
        elif n in ("drain_to", "add_data"):
            c.fact(False, f"{key}:other-recipients", w, f"outputs are also added with {n}")
        b = call.a[2][i]
    added.reverse()
    isb = b.op == "call" and b.a[0].endswith("Wallet::build_tx")
    c.fact(isb and ("bdk" not in a or b.a[2][0] is a["bdk"]), f"{key}:builder", w, f"the transaction is not built from the wallet given: {show(b)[:200]}")
    same_multiset(c, G, added, want, f"{key}:recipients", w)
    c.implies(s.ok, ok, f"{key}:dust", w, "an amount below the dust limit is accepted")
    c.implies(And(ok, valid_args(c, {k: x for k, x in a.items() if k in dict(SIGS[kind])})), subst(s.ok, library_ok(s)), f"{key}:total", w, "a request whose amounts are not below the dust limit is refused although the wallet and the library accept it")


def library_ok(s):
    """every call of the library succeeds"""
    m = {}
    for t in set(subterms(s.ok)) | set(subterms(gate(s.cur, s.ret))):
        if t.op == "discr" and t.a[0].op == "call" and not t.a[0].a[0].startswith(("sbtc_core", "stacks_core")):
            m[t] = ZERO
    return m


def same_multiset(c, G, got, want, key, w):
    left = list(want)
    bad = []
    for x, y in got:
        for z in left:
            if same_by_cases(G, tup(x, y), tup(*z)):
                left.remove(z)
                break
        else:
            bad.append((x, y))
    c.fact(not left and not bad, key, w, f"the wallet is not asked for exactly the documented outputs: missing {[show(tup(*z))[:200] for z in left]}, extra {[show(tup(*z))[:200] for z in bad]}")


def builders(c):
    for name, kind, full in BUILDERS:
        if not c.prog.names.get(name) and not full:
            c.notes.append(f"{name} is not in the tree (checked through its callers)")
            continue
        bid = c.fn(name)
        r = args_by_pos(c, bid, SIGS[kind] + [("bdk", WALLET)])
        s = c.run(bid, opaque={c.fn(REORDER)})
        a = {k: s.args[i] for k, i in r.items()}
        builder(c, name, kind, full, s, a, name.split("op_return::")[1])


def deposit_from_key(c):
    """the deposit made from a private key"""
    name = OR + "deposit::deposit"
    bid = c.fn(name)
    r = args_by_pos(c, bid, [("pk", isadt("::PrivateKey")), ("recipient", isprin), ("amount", U64), ("wallet", ADDRT)])
    s = c.run(bid, opaque={c.fn(REORDER)})
    a = {k: s.args[i] for k, i in r.items()}
    a["net"] = settype(c.fld(a["pk"], "network"), ("adt", spec.net_path(c), ()))
    builder(c, name, "deposit", True, s, a, "deposit::deposit")
    ws = {x for x in subterms(s.ret) if x.op == "call" and x.a[0].endswith("Wallet::new")}
    c.fact(len(ws) == 1, "deposit::deposit:one-wallet", s.where(), "the deposit does not use one wallet")
    for x in ws:
        c.same(s.ok, x.a[2][2], a["net"], "deposit::deposit:network", s.where(), "the wallet is not on the network of the private key")
        ks = [y for y in subterms(x.a[2][0]) if y is a["pk"]]
        c.fact(bool(ks), "deposit::deposit:key", s.where(), "the wallet is not made from the private key given")


def reorder(c):
    """a permutation: sort_by_key over (place, output) pairs, one for each output"""
    e = engine.ENG
    bid = c.fn(REORDER)
    s = c.run(bid, names={0: "outputs", 1: "order"})
    e = engine.ENG
    w = s.where()
    c.fact(s.cur is TRUE or num.refute(Not(s.cur)), "reorder:total", w, "reordering panics in some case")
    outputs, order = s.args
    txo = ("adt", spec.adtpath(c, "bitcoin::blockdata::transaction::TxOut"), ())
    R = norm(s.ret)
    if not c.fact(R.op == "flat", "reorder:shape", w, f"the result is not read off a sorted list: {show(R)[:300]}"):
        return
    k = settype(mk("sym", "#k", ("num", "usize")), ("num", "usize"))
    el = beta(R.a[1], [k])
    el = el.a[0].a[0] if el.op == "cat" and len(el.a) == 1 and el.a[0].op == "one" else None
    ok = el is not None and el.op == "fld" and el.a[0].op == "nth" and el.a[0].a[1] is k and el.a[0].a[0].op == "sortk"
    if not c.fact(ok, "reorder:projection", w, f"the result is not the outputs of a sorted list in order: {show(R)[:300]}"):
        return
    j, SK = el.a[1], el.a[0].a[0]
    F, keys = SK.a[1], SK.a[2]
    c.fact(R.a[0] is ln(SK) or R.a[0] is ln(F), "reorder:all", w, "not every sorted element is kept")
    kel = nth(keys, k)
    okk = kel.op == "fld" and kel.a[0] is nth(F, k) and kel.a[1] != j
    c.fact(okk, "reorder:key", w, f"the list is not sorted ascending by the place of the output: {show(kel)[:300]}")
    ki = kel.a[1] if okk else 0
    if not c.fact(F.op == "fold" and F.a[1] is ln(outputs), "reorder:elements", w, f"the sorted list is not made element by element from the outputs: {show(F)[:300]}"):
        return
    acc, lm, inits = F.a[0], F.a[2], F.a[3]
    n = len(inits)
    syms = [settype(mk("sym", f"#s{i}", tyof(x)), tyof(x)) for i, x in enumerate(inits)]
    body = beta(lm, [k] + syms)
    parts = body.a[2:]
    st = [i for i in range(n) if i != acc]
    pa = parts[acc]
    if not c.fact(inits[acc] is EMPTY and pa.op == "cat" and len(pa.a) == 2 and pa.a[0] is mk("spr", syms[acc]) and pa.a[1].op == "one" and len(st) == 1, "reorder:append", w,
                  f"not exactly one element is made for each output: {show(pa)[:300]}"):
        return
    pair = pa.a[1].a[0]
    o = nth(outputs, k)
    settype(o, txo)
    c.fact(e.proj(pair, ("f", j)) is o, "reorder:permutation", w, "an output is replaced when the outputs are sorted")
    # places
    m = syms[st[0]]
    key = tup(c.fld(o, "script_pubkey"), c.fld(o, "value"))
    g, q = mapq(e, m, key)
    place = select([(And(g, lt(ZERO, ln(q))), nth(q, ZERO)), (Not(And(g, lt(ZERO, ln(q)))), I(2**64 - 1))])
    got = e.proj(pair, ("f", ki))
    c.same(TRUE, got, place, "reorder:place", w, "an output does not get the first unused place of the outputs with its script and value (and none: the end)")
    used = models2_().mapupd(m, key, select([(lt(ZERO, ln(q)), drop(q, ONE)), (Not(lt(ZERO, ln(q))), q)]))
    gotm = parts[st[0]]
    c.same(g, gotm, used, "reorder:used", w, "a place is given to more than one output")
    # the table of places
    T0 = inits[st[0]]
    if not c.fact(T0.op == "fold" and T0.a[1] is ln(order), "reorder:table", w, f"the table of places is not made from the requested order: {show(T0)[:300]}"):
        return
    if not c.fact(len(T0.a[3]) == 1 and T0.a[3][0] is mk("map", EMPTY), "reorder:table-start", w, "the table of places does not start empty"):
        return
    m = settype(mk("sym", "#m", None), None)
    b = beta(T0.a[2], [k, m]).a[2]
    oo = nth(order, k)
    g, q = mapq(e, m, oo)
    want = models2_().mapupd(m, oo, select([(g, cat([mk("spr", q), one(k)])), (Not(g), lst([k]))]))
    c.same(TRUE, b, want, "reorder:table-entry", w, "the place of an output is not its position in the requested order")


def models2_():
    import models2
    return models2


def mapq(e, m, key):
    o = models.map_get(e, m, key)
    return is_label(e.discr(o, ("adt", OPT, (None,))), 1), e.payload(o, 1)


def compose(c):
    """the parser reads back what was built"""
    e = engine.ENG
    txp = ("adt", spec.adtpath(c, "bitcoin::blockdata::transaction::Transaction"), ())
    txo = spec.adtpath(c, "bitcoin::blockdata::transaction::TxOut")
    fo = {f["n"]: i for i, f in enumerate(c.prog.adts[txo]["v"][0]["f"])}
    ft = [f["n"] for f in c.prog.adts[txp[1]]["v"][0]["f"]]
    sym = lambda n, t: settype(mk("sym", n, t), t)
    for kind, pk in (("deposit", "deposit"), ("withdrawal", "withdrawal request")):
        types = {"recipient": ("adt", spec.PRIN, ()), "wallet": ("adt", spec.adtpath(c, "util::address::Address"), ()), "payee": ("adt", spec.adtpath(c, "util::address::Address"), ()),
                 "amount": ("num", "u64"), "fee": ("num", "u64"), "net": ("adt", spec.net_path(c), ()), "key": ("adt", "secp256k1::key::SecretKey", ())}
        a = {r: sym(r, types[r]) for r, _ in SIGS[kind]}
        if "recipient" in a:
            a["recipient"] = eta(c.prog, a["recipient"], types["recipient"])
        want, ok = getattr(B(c), kind)(a)
        V_ = TRUE
        if "recipient" in a:
            V_ = p02.valid(c, a["recipient"])
        outs = []
        for sc, val in want:
            f = [None, None]
            f[fo["script_pubkey"]], f[fo["value"]] = sc, val
            outs.append(one(adt(txo, 0, *f)))
        rest = sym("rest", ("slice", ("adt", txo, ())))
        tx = sym("tx", txp)
        tx = adt(txp[1], 0, *[cat(outs + [mk("spr", rest)]) if n == "output" else e.proj(tx, ("f", i)) for i, n in enumerate(ft)])
        name, _ = PARSERS[pk]
        bid = c.fn(name)
        b = c.prog.bodies[bid]
        args = [None] * b["args"]
        for i in range(b["args"]):
            t = unref(c.prog.ltypes(b)[i + 1])
            args[i] = a["net"] if t[1] == spec.net_path(c) else tx
        s = c.run(bid, args)
        w = s.where()
        e = engine.ENG
        c.implies(V_, s.ok, f"{kind}:parsed", w, "a transaction with the documented outputs is not recognised")
        G = And(V_, s.ok)
        v = s.okval
        c.same(G, c.fld(v, "amount"), a["amount"], f"{kind}:amount-back", w, "the amount read back is not the one asked for")
        if kind == "deposit":
            c.same(G, c.bytype(v, spec.PRIN), a["recipient"], f"{kind}:recipient-back", w, "the recipient read back is not the one asked for")
            c.same(G, c.fld(v, "sbtc_wallet_address"), a["wallet"], f"{kind}:wallet-back", w, "the wallet read back is not the one asked for")
        else:
            c.same(G, c.fld(v, "payee_bitcoin_address"), a["payee"], f"{kind}:payee-back", w, "the payee read back is not the one asked for")
            c.same(G, c.fld(v, "sbtc_wallet"), a["wallet"], f"{kind}:wallet-back", w, "the wallet read back is not the one asked for")
            c.same(G, c.fld(v, "fulfillment_amount"), a["fee"], f"{kind}:fee-back", w, "the fee read back is not the one asked for")
            dr = c.bytype(v, spec.ADDR)
            h = [c.core_of(e.proj(dr, ("f", i))) for i in range(2) if c.prog.field_type(("adt", spec.ADDR, ()), 0, i) != ("adt", spec.AVER, ())][0]
            c.same(G, h, p04.p2pkh(c, None, mk("pubkey", a["key"])), f"{kind}:drawee-back", w, "the drawee read back is not the signer of the request")


PARTS = [outputs_of, builders, deposit_from_key, reorder, compose]
