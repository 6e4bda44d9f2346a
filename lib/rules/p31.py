"""Abstract interpretation of the command line tool from `main`: for each sub-command, the arguments of the
library calls and the printed value are terms over the parsed options; they are compared with the option of
the documented name."""
from fw import *
import spec
import p26

LEVEL = "other"
RULE = "library call arguments and printed values = the options of that name, unaltered; the transaction printed, its id and the one broadcast are one and the same"
ASSUME = ["clap fills each field from the option of that name", "bdk, electrum-client and serde_json do what their documentation says"]

TX = ("adt", "bitcoin::blockdata::transaction::Transaction", ())
SER = "serde_core::ser::Serialize"
LIB = "sbtc_core::operations::op_return::"


class Cmd:
    pass


def program(c):
    """the summary of main, library calls left symbolic"""
    ops = [c.fn(LIB + "deposit::build_deposit_transaction"), c.fn(LIB + "withdrawal_request::build_withdrawal_tx"), c.fn("sbtc::commands::generate::generate")]
    for x in ("deposit::deposit",):
        ops += [i for i in c.prog.names.get(LIB + x, [])]
    ops.append(c.impl("core::convert::TryFrom", ("adt", "stacks_core::utils::PrincipalData", ()), "try_from", (STRING,))[0])
    return c.run(c.fn("sbtc::main"), opaque=ops)


def commands(c, s):
    roots = [r.res for r in s.log if r.kind == "call" and r.res is not None and (lambda t: t is not None and t[0] == "adt" and t[1].startswith("sbtc::"))(tyof(r.res)) and r.name.split("::")[-1] in ("parse", "parse_from")]
    if len(roots) != 1:
        raise Missing("the parsed command line")
    root = roots[0]
    rt = unref(tyof(root))
    enums = []
    for i in range(len(c.prog.adts[rt[1]]["v"][0]["f"])):
        t = unref(c.prog.field_type(rt, 0, i))
        if t is not None and t[0] == "adt" and c.prog.adts.get(t[1], {}).get("kind") == "enum" and t[1].startswith("sbtc::"):
            enums.append((i, t))
    if len(enums) != 1:
        raise Missing("the sub-command")
    i, t = enums[0]
    cmd = engine.ENG.proj(root, ("f", i))
    out = {}
    for vi, v in enumerate(c.prog.adts[t[1]]["v"]):
        k = Cmd()
        k.name = v["n"]
        k.here = is_label(engine.ENG.discr(cmd, t), c.prog.variant_discr(t[1], vi))
        k.val = engine.ENG.proj(cmd, ("v", vi))
        k.opt = {}
        fs = v["f"]
        if len(fs) == 1 and fs[0]["n"].isdigit():
            at = unref(c.prog.field_type(t, vi, 0))
            base = engine.ENG.proj(k.val, ("f", 0))
            for j, f in enumerate(c.prog.adts[at[1]]["v"][0]["f"]):
                k.opt[f["n"]] = engine.ENG.proj(base, ("f", j))
            k.args = base
        else:
            for j, f in enumerate(fs):
                k.opt[f["n"]] = engine.ENG.proj(k.val, ("f", j))
        out[k.name] = k
    return out


def calls(s, k, *suffix, what=None):
    rs = []
    for r in s.log:
        if r.kind in ("call", "log") or r.kind not in ("enter",):
            if any(r.name == x or r.name.endswith("::" + x) for x in suffix) and And(r.guard, k.here) is not FALSE:
                rs.append(r)
    return rs


def success(r):
    return is_label(engine.ENG.discr(r.res, tyof(r.res)), 0)


def ok(r):
    return engine.ENG.payload(r.res, 0)


def json_of(c, v):
    """labels and values of what a serialiser writes"""
    if v.op == "adt" and c.prog.adts.get(v.a[0], {}).get("local"):
        t = ("adt", v.a[0], ())
        bid, subs = c.method(SER, t, "serialize", (), extra=(("param", 91, "S"),))
        q = c.run(bid, [v, mk("sym", "ser", ("param", 91, "S"))], subs=subs)
        out = {}
        for r in q.log:
            n = r.name.split("::")[-1]
            if n == "serialize_field":
                out[(p26.text_of(r.args[1]),)] = r.args[2]
            elif n not in ("serialize_struct", "end") and r.kind == "call":
                raise Missing(f"how {v.a[0]} is written")
        return out
    if v.op in ("conv", "map") or v.op == "adt":
        return p26.flatten(v)
    return {(): v}


def outputs(s, k):
    """(condition, reported condition, value) of everything written to the standard output"""
    out = []
    for r in s.log:
        if And(r.guard, k.here) is FALSE:
            continue
        n = r.name.split("::")[-1]
        if n in ("to_writer", "to_writer_pretty") and "serde_json" in r.name:
            d = r.args[0]
            while d.op == "call" and d.a[0].split("::")[-1] in ("lock", "by_ref", "new") and d.a[2]:
                d = d.a[2][0]
            if d.op == "call" and d.a[0].endswith("stdout"):
                out.append((r.guard, success(r), r.args[1], r))
        elif r.name == "print" or n in ("_print",):
            out.append((r.guard, TRUE, r.args[0], r))
    return out


def untext(v):
    """the value a printed JSON text was made from"""
    if v.op == "cat":
        ps = [p for p in v.a if not (p.op == "spr" and p.a[0].op == "str" and p.a[0].a[0].strip() == "") and not (p.op == "one" and p.a[0].op == "int" and p.a[0].a[0] in (10, 32))]
        if len(ps) == 1 and ps[0].op == "spr":
            return untext(ps[0].a[0])
    if v.op in ("asbytes", "disp", "utf8"):
        return untext(v.a[0])
    if v.op == "fld" and v.a[0].op == "as" and v.a[0].a[0].op == "call" and v.a[0].a[0].a[0].split("::")[-1] in ("to_string", "to_string_pretty") and "serde_json" in v.a[0].a[0].a[0]:
        return v.a[0].a[0].a[2][0]
    return v


def text(x):
    return models.asbytes(x)


def typed(n, t, *args):
    return settype(mk("call", n, None, args), t)


def txid(tx):
    return typed("bitcoin::blockdata::transaction::Transaction::txid", ("adt", "bitcoin::hash_types::Txid", ()), tx)


def is_txid_text(c, v, tx):
    for r in c.log_txid:
        if r.args and r.args[0] is tx:
            e = engine.ENG
            for w in (models.display(e, r.res, tyof(r.res)), r.res):
                if text(v) is text(w):
                    return True
    return False


def is_tx_hex(v, tx):
    v = v.a[0] if v.op == "utf8" else v
    if v.op == "call" and v.a[0].endswith("serialize_hex"):
        return v.a[2][0] is tx
    if v.op == "hex":
        return is_tx_bytes(v.a[0], tx)
    return False


def is_tx_bytes(v, tx):
    return v.op == "call" and v.a[0].split("::")[-1] == "serialize" and "bitcoin" in v.a[0] and v.a[2][-1] is tx


def wallet(c, s, k, key, w, where, g):
    """w is the synchronised wallet of the private key given, on the network given"""
    e = engine.ENG
    nm = k.name
    ks = [r for r in calls(s, k, "PrivateKey::from_wif") if text(r.args[0]) is text(k.opt["wif"])]
    if not c.fact(len(ks) >= 1, f"{nm}:key", where, "the private key given is not read"):
        return
    key = ok(ks[0])
    ws = [r for r in calls(s, k, "Wallet::new") if same_value(w, ok(r))]
    if not c.fact(len(ws) == 1, f"{nm}:wallet", where, "the wallet used is not one made here"):
        return
    r = ws[0]
    a = r.args
    tmpl = lambda x: x.op == "adt" and x.a[0].split("::")[-1] == "P2Wpkh" and x.a[2] is key
    c.fact(tmpl(a[0]), f"{nm}:wallet-key", r.site, "the wallet is not the P2WPKH wallet of the private key given")
    c.fact(a[1].op == "adt" and (len(a[1].a) == 2 or tmpl(a[1].a[2])), f"{nm}:wallet-change", r.site, "change does not go to the wallet of the private key given")
    c.same(g, a[2], k.opt["network"], f"{nm}:wallet-network", r.site, "the wallet is on another network than the one given")
    sy = [x for x in calls(s, k, "Wallet::sync") if same_value(x.args[0], w)]
    if c.fact(len(sy) == 1, f"{nm}:sync", r.site, "the wallet is not synchronised"):
        c.implies(g, success(sy[0]), f"{nm}:synced", sy[0].site, "the transaction is built although the wallet was not synchronised")
        b = sy[0].args[1]
        urls = [x for x in subterms(b) if x.op == "call" and x.a[0].split("::")[-1] in ("as_str", "to_string") and x.a[2] and x.a[2][0] is k.opt["node_url"] or x is k.opt["node_url"]]
        c.fact(bool(urls), f"{nm}:node", sy[0].site, "the wallet is not synchronised with the node given")
        others = [f for f in k.opt.values() if f is not k.opt["node_url"] and has(b, f)]
        c.fact(not others, f"{nm}:node-only", sy[0].site, "another option finds its way into the connection")


def same_value(a, b):
    return a is b or norm(a) is norm(b)


def transaction(c, s, k, lib, expect):
    e = engine.ENG
    nm = k.name
    rs = calls(s, k, lib)
    if not c.fact(len(rs) == 1, f"{nm}:built", s.where(), "the transaction is not built by one call of the library"):
        return
    r = rs[0]
    g = And(r.guard, k.here)
    c.fact(g is not FALSE, f"{nm}:reachable", r.site, "the sub-command does nothing")
    expect(c, s, k, r, g)
    tx = ok(r)
    outs = outputs(s, k)
    if not c.fact(len(outs) == 1, f"{nm}:printed", s.where(), "this sub-command does not print one value"):
        return
    og, _, v, o = outs[0]
    c.implies(And(og, k.here), success(r), f"{nm}:after", o.site, "something is printed although no transaction was built")
    tree = json_of(c, untext(v))
    c.fact(set(tree) == {("id",), ("hex",)}, f"{nm}:labels", o.site, "what is printed does not consist of the id and the hexadecimal form")
    if ("id",) in tree:
        c.fact(is_txid_text(c, tree[("id",)], tx), f"{nm}:id", o.site, f"the id printed is not the id of the transaction built: {show(tree[('id',)])[:200]}")
    if ("hex",) in tree:
        c.fact(is_tx_hex(tree[("hex",)], tx), f"{nm}:hex", o.site, f"the text printed is not the transaction built: {show(tree[('hex',)])[:200]}")
    bs = [x for x in s.log if x.kind != "enter" and "broadcast" in x.name.split("::")[-1] and And(x.guard, k.here) is not FALSE]
    c.fact(not bs, f"{nm}:no-broadcast", bs[0].site if bs else "-", "a sub-command that only builds a transaction broadcasts it")


def parsed(c, s, k, opt, suffix, v, msg, g, where, inner=False):
    """v is the value read from the text of an option"""
    rs = [r for r in calls(s, k, *suffix) if r.args and text(r.args[-1]) is text(k.opt[opt])]
    vals = [ok(r) for r in rs]
    if inner:
        vals = [engine.ENG.proj(x, ("f", i)) for x in vals for i in range(3)]
    c.fact(any(same_value(v, x) for x in vals), f"{k.name}:{opt}", where, msg + f": {show(v)[:200]}")


ADDR = ("FromStr::from_str", "str::parse")


def named(c, r):
    """arguments of a library call by the name of the parameter"""
    out = {}
    for i, b in c.prog.bodies.items():
        if b["name"] == r.name and b["kind"] in ("fn", "method"):
            for n, pl in b["names"]:
                if not pl[1] and 1 <= pl[0] <= b["args"]:
                    out.setdefault(pl[0] - 1, n)
    return out


def bytyp(c, s, r, want):
    """positions of the arguments of a library call with a type"""
    b = [b for b in c.prog.bodies.values() if b["name"] == r.name and b["kind"] in ("fn", "method")][0]
    ts = c.prog.ltypes(b)
    return [i for i in range(b["args"]) if (lambda t: t is not None and t[0] == want[0] and (t[0] != "adt" or t[1].split("::")[-1] == want[1]) and (t[0] != "num" or t == want))(unref(ts[i + 1]))]


def deposit(c):
    s, ks = c.cli
    k = need(ks, "Deposit")

    def expect(c, s, k, r, g):
        a = r.args
        w, = bytyp(c, s, r, ("adt", "Wallet"))
        p, = bytyp(c, s, r, ("adt", "PrincipalData"))
        ad, = bytyp(c, s, r, ("adt", "Address"))
        am, = bytyp(c, s, r, ("num", "u64"))
        nt, = bytyp(c, s, r, ("adt", "Network"))
        wallet(c, s, k, None, a[w], r.site, g)
        parsed(c, s, k, "recipient", ("TryFrom::try_from", "PrincipalData::try_from"), a[p], "the recipient is not the one given", g, r.site)
        parsed(c, s, k, "sbtc_wallet", ADDR, a[ad], "the deposit does not go to the sBTC wallet given", g, r.site)
        c.same(g, a[am], k.opt["amount"], "Deposit:amount", r.site, "another amount than the one given is deposited")
        c.same(g, a[nt], k.opt["network"], "Deposit:network", r.site, "the deposit is made for another network than the one given")
    transaction(c, s, k, "deposit::build_deposit_transaction", expect)


def withdraw(c):
    s, ks = c.cli
    k = need(ks, "Withdraw")

    def expect(c, s, k, r, g):
        a = r.args
        w, = bytyp(c, s, r, ("adt", "Wallet"))
        nt, = bytyp(c, s, r, ("adt", "Network"))
        sk, = bytyp(c, s, r, ("adt", "SecretKey"))
        pa, sw = bytyp(c, s, r, ("adt", "Address"))
        am, fee = bytyp(c, s, r, ("num", "u64"))
        wallet(c, s, k, None, a[w], r.site, g)
        c.same(g, a[nt], k.opt["network"], "Withdraw:network", r.site, "the request is made for another network than the one given")
        parsed(c, s, k, "drawee_wif", ("PrivateKey::from_wif", "FromStr::from_str"), a[sk], "the request is not signed with the drawee's key", g, r.site, inner=True)
        parsed(c, s, k, "payee_address", ADDR, a[pa], "the payee is not the address given", g, r.site)
        parsed(c, s, k, "sbtc_wallet", ADDR, a[sw], "the fulfilment fee does not go to the sBTC wallet given", g, r.site)
        c.same(g, a[am], k.opt["amount"], "Withdraw:amount", r.site, "another amount than the one given is withdrawn")
        c.same(g, a[fee], k.opt["fulfillment_fee"], "Withdraw:fee", r.site, "another fulfilment fee than the one given is paid")
    transaction(c, s, k, "withdrawal_request::build_withdrawal_tx", expect)


def need(ks, n):
    if n not in ks:
        raise Missing(f"the sub-command {n}")
    return ks[n]


def broadcast(c):
    s, ks = c.cli
    k = need(ks, "Broadcast")
    bs = [x for x in s.log if x.kind != "enter" and "broadcast" in x.name.split("::")[-1] and And(x.guard, k.here) is not FALSE and not x.name.startswith("sbtc::")]
    if not c.fact(len(bs) == 1, "Broadcast:once", s.where(), "the transaction is not broadcast exactly once"):
        return
    b = bs[0]
    g = And(b.guard, k.here)
    tx = b.args[1]
    des = [r for r in calls(s, k, "Deserialize::deserialize", "encode::deserialize", "consensus::deserialize") if same_value(ok(r), tx)]
    if c.fact(len(des) == 1, "Broadcast:transaction", b.site, f"what is broadcast is not a transaction read here: {show(tx)[:200]}"):
        raw2 = des[0].args[-1]
        raw = [x for x in subterms(raw2) if x.op == "call" and x.a[0].endswith("hex::decode") and same_value(raw2, engine.ENG.payload(x, 0)) and text(x.a[2][0]) is text(k.opt["tx"])]
        c.fact(len(raw) == 1, "Broadcast:given", b.site, f"the transaction broadcast is not read from the text given: {show(raw2)[:200]}")
    n = k.opt["node_url"]
    c.fact(has(b.args[0], n) and not has(b.args[0], k.opt["tx"]), "Broadcast:node", b.site, "the transaction is not sent to the node given")
    outs = outputs(s, k)
    if c.fact(len(outs) == 1, "Broadcast:printed", s.where(), "this sub-command does not print one value"):
        og, _, v, o = outs[0]
        c.implies(And(og, k.here), success(b), "Broadcast:after", o.site, "the id is printed although the transaction was not broadcast")
        tree = json_of(c, untext(v))
        c.fact(set(tree) == {()} and is_txid_text(c, tree[()], tx), "Broadcast:id", o.site, f"what is printed is not the id of the transaction broadcast: {show(v)[:200]}")
    c.implies(And(s.ok, k.here), And(b.guard, success(b)), "Broadcast:done", b.site, "success is reported although nothing was broadcast")


def generation(c):
    s, ks = c.cli
    k = need(ks, "GenerateFrom")
    rs = calls(s, k, "generate::generate")
    if c.fact(len(rs) == 1, "GenerateFrom:called", s.where(), "credentials are not generated by one call"):
        c.fact(len(rs[0].args) == 1 and same_value(rs[0].args[0], k.args), "GenerateFrom:options", rs[0].site, "the options are not handed on as they are")
    for n in ("Deposit", "Withdraw", "Broadcast"):
        c.fact(n in ks and And(rs[0].guard, ks[n].here) is FALSE, f"GenerateFrom:only:{n}", s.where(), "another sub-command generates credentials")


def load(c):
    s = program(c)
    c.log_txid = [r for r in s.log if r.name.endswith("Transaction::txid")]
    c.cli = (s, commands(c, s))
    c.fact(True, "main", s.where(), "")


PARTS = [load, deposit, withdraw, broadcast, generation]
