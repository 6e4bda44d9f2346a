"""Abstract interpretation of the `generate` command: the value handed to the printer is expanded into a
tree of labels; the value under each label is compared with the accessor of that name applied to the
wallet, the account index and the networks asked for."""
from fw import *
import spec
import p10
import p12

LEVEL = "other"
RULE = "value printed under a label = accessor of that name, of the credentials with that index, of the wallet the command was asked for; the networks are the arguments"
ASSUME = ["serde_json prints the value it is given"]
WL = "stacks_core::wallet::"


def flatten(v):
    """{label path: value} of a JSON value; a label of an unbounded family is written as the tuple (count, index variable, label)"""
    out = {}

    def go(v, path):
        if v.op == "conv" and v.a[0] == "json":
            return go(v.a[1], path)
        if v.op == "adt" and v.a[0].endswith("value::Value") and len(v.a) == 3:
            return go(v.a[2], path)
        if v.op == "map":
            ps = v.a[0]
            for p in (ps.a if ps.op == "cat" else [mk("spr", ps)]):
                entry(p, path)
            return
        if path in out:
            raise Missing(f"one value under the label {path}")
        out[path] = v

    def entry(p, path):
        if p.op == "one" and p.a[0].op == "adt":
            k, x = p.a[0].a[2:]
            k = text_of(k)
            go(x, path + (k,))
        elif p.op == "spr" and p.a[0].op == "cat":
            for q in p.a[0].a:
                entry(q, path)
        elif p.op == "spr" and p.a[0].op == "flat":
            n, l = p.a[0].a
            b = mk("sym", f"i{len(path)}", ("num", "usize"))
            body = inst(l, b)
            for q in (body.a if body.op == "cat" else [mk("spr", body)]):
                if q.op != "one":
                    raise Missing(f"labels in {show(q)[:100]}")
                k, x = q.a[0].a[2:]
                go(x, path + ((n, b, k),))
        else:
            raise Missing(f"labels in {show(p)[:100]}")
    go(v, ())
    return out


def text_of(k):
    k = models.asbytes(k) if k.op != "str" else k
    return k.a[0] if k.op == "str" else k


def inst(l, b):
    return terms.beta(l, [b])


def lower(v):
    return apply(None, lambda x: S(x.a[0].lower()) if x.op == "str" else mk("lower", x), v)


def generate(c):
    ops = [i for i, b in c.prog.bodies.items() if b["kind"] in ("fn", "method") and b["pub"] and any(b["name"].startswith(WL + x + "::") for x in ("Wallet", "Credentials", "BitcoinCredentials"))]
    ops.append(c.fn("stacks_core::c32::encode_address"))
    bid = c.fn("sbtc::commands::generate::generate")
    s = c.run(bid, opaque=ops)
    a = s.args[0]
    at = unref(tyof(a))
    e = engine.ENG
    stx, btc = c.bytype(a, p10.NET), c.bytype(a, spec.net_path(c))
    count = c.bytype(a, ("num", "usize"))
    cmds = [i for i, f in enumerate(c.prog.adts[at[1]]["v"][0]["f"]) if (lambda t: t[0] == "adt" and c.prog.adts.get(t[1], {}).get("local") and t[1].startswith("sbtc::"))(c.prog.field_type(at, 0, i))]
    if len(cmds) != 1:
        raise Missing("the field saying which wallet to generate from")
    cmd = e.proj(a, ("f", cmds[0]))
    ct = c.prog.field_type(at, 0, cmds[0])
    c.sub = {v["n"]: i for i, v in enumerate(c.prog.adts[ct[1]]["v"])}
    writes = [r for r in s.log if r.res is not None and r.res.op == "call" and r.name.split("::")[-1] in ("to_writer", "to_writer_pretty")]
    ways = {"New": "random", "Mnemonic": "new"}
    c.fact(set(c.sub) == set(ways), "generate:ways", s.where(), "the ways of generating are not the documented ones")
    for kind in ways:
        if kind not in c.sub:
            continue
        here = is_label(e.discr(cmd, ct), c.prog.variant_discr(ct[1], c.sub[kind]))
        ws = [w for w in writes if And(w.guard, here) is not FALSE]
        if c.fact(len(ws) == 1, f"generate:{kind}:printed", s.where(), "this way of generating does not print one value"):
            one(c, s, ws[0], kind, here, cmd, ct, stx, btc, count)


def one(c, s, w, kind, here, cmd, ct, stx, btc, count):
    e = engine.ENG
    g = And(w.guard, here)
    v = norm(simp(g, w.res.a[2][-1]))
    c.implies(And(s.ok, here), is_label(e.discr(w.res, tyof(w.res)), 0), f"generate:{kind}:reported", s.where(), "success is reported although the credentials were not printed")
    src = {x for x in subterms(v) if x.op == "call" and x.a[0] in (WL + "Wallet::new", WL + "Wallet::random")}
    if not c.fact(len(src) == 1, f"generate:{kind}:one-wallet", s.where(), "the printed value is not made from one wallet"):
        return
    src = src.pop()
    c.fact(src.a[0].endswith("::random") == (kind == "New"), f"generate:{kind}:source", s.where(), "the wallet printed is not the one this way of generating asks for")
    if kind == "Mnemonic" and src.a[2]:
        m = e.proj(e.proj(cmd, ("v", c.sub[kind])), ("f", 0))
        c.same(g, models.asbytes(src.a[2][0]), models.asbytes(m), f"generate:{kind}:words", s.where(), "the wallet is not made from the words given")
    wal = e.payload(src, 0)
    tree = flatten(v)

    def acc(ty, m, *args):
        b = c.fn(WL + ty + "::" + m)
        rt = c.prog.ltypes(c.prog.bodies[b])[0]
        return settype(mk("call", WL + ty + "::" + m, None, args), rt)

    def disp(x, t):
        e2 = engine.Engine(c.prog)
        e2.no_inline = {c.fn("stacks_core::c32::encode_address")}
        im = e2.resolve("alloc::string::ToString", "to_string", (t,))
        if im is not None:
            return e2.deep(e2.inline(im[0], im[1], [x], [("ref", False, t)], STRING))
        return e2.deep(models.display(e2, x, t))
    hexed = lambda k: mk("hex", settype(mk("call", "secp256k1::key::SecretKey::secret_bytes", None, (k,)), ("array", U8, ("cval", 32))))
    rt = lambda ty, m: c.prog.ltypes(c.prog.bodies[c.fn(WL + ty + "::" + m)])[0]
    want = {
        ("mnemonic",): lambda: disp(acc("Wallet", "mnemonic", wal), rt("Wallet", "mnemonic")),
        ("private_key",): lambda: hexed(acc("Wallet", "master_key", wal)),
        ("wif",): lambda: disp(acc("Wallet", "wif", wal, stx), rt("Wallet", "wif")),
        ("network_stacks",): lambda: lower(disp(stx, ("adt", p10.NET, ()))),
        ("network_bitcoin",): lambda: lower(disp(btc, ("adt", spec.net_path(c), ()))),
    }
    fam = [p for p in tree if len(p) > 1 and isinstance(p[1], tuple)]
    fams = {p[1] for p in fam}
    if c.fact(len(fams) == 1 and all(p[0] == "credentials" for p in fam), f"generate:{kind}:accounts", s.where(), "the accounts are not printed one by one under 'credentials'"):
        n, b, k = fam[0][1]
        c.same(TRUE, n, count, f"generate:{kind}:count", s.where(), "the number of accounts printed is not the number asked for")
        c.same(TRUE, k, disp(b, ("num", "usize")), f"generate:{kind}:index", s.where(), "an account is printed under another index")
        ix = engine.ENG.cast("IntToInt", b, ("num", "usize"), ("num", "u32"))
        sc = e.payload(settype(acc("Wallet", "credentials", wal, stx, ix), None), 0)
        bc = e.payload(settype(acc("Wallet", "bitcoin_credentials", wal, btc, ix), None), 0)
        pre = ("credentials", fam[0][1])
        C = "Credentials"
        for role, ty, base, suf in (("stacks", C, sc, ""),) + tuple((("bitcoin", x), "BitcoinCredentials", bc, "_" + x) for x in p10.PURPOSE):
            pp = pre + ((role,) if isinstance(role, str) else role)
            want[pp + ("private_key",)] = lambda ty=ty, base=base, suf=suf: hexed(acc(ty, "private_key" + suf, base))
            for what in ("public_key", "address", "wif"):
                want[pp + (what,)] = lambda ty=ty, base=base, suf=suf, what=what: disp(acc(ty, what + suf, base), rt(ty, what + suf))
    for p, f in want.items():
        nm = "/".join(x if isinstance(x, str) else "i" for x in p)
        if not c.fact(p in tree, f"generate:{kind}:{nm}:present", s.where(), "this label is not printed"):
            continue
        c.same(TRUE, tree[p], f(), f"generate:{kind}:{nm}", s.where(), "the value printed under this label is not the credential of that name")


PARTS = [generate]
