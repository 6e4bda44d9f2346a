"""Abstract interpretation of wallet creation and of every credential accessor: each private key is
expressed as a derivation of the master key along a path string, each public key, address and import
string as a function of a private key and a network, and all are compared with the documented ones.
The value printed by the command line tool is compared label by label with the accessors."""
from fw import *
import spec
import models2
import p12

LEVEL = "other"
RULE = "key of a role = master key derived along the documented path; public key, address, WIF of a role = functions of that role's own key and the wallet's network; printed label = accessor of the same name"
ASSUME = ["BIP-32, BIP-39 and address construction are what their libraries say", "child derivation does not fail (probability 2^-127)"]

WL = "stacks_core::wallet::"
NET = "stacks_core::Network"
BT = "bitcoin::util::"
XPRV = ("adt", BT + "bip32::ExtendedPrivKey", ())
SK = ("adt", "secp256k1::key::SecretKey", ())
MN = ("adt", "bip39::Mnemonic", ())
PURPOSE = {"p2pkh": "44", "p2wpkh": "84", "p2tr": "86"}


def last(n):
    return "::".join(n.split("::")[-2:])


def canon(c, t):
    """one form for the different ways the libraries offer to say the same"""
    memo = {}
    e = engine.ENG

    def go(t):
        r = memo.get(t)
        if r is None:
            r = memo[t] = step(t)
        return r

    def ra(a):
        return tuple(go(x) if isinstance(x, T) else ra(x) if isinstance(x, tuple) else x for x in a)

    def step(t):
        if t.op == "g":
            v, cs, df = t.a
            return case_on(go(v), {l: go(x) for l, x in cs}, go(df) if df is not None else None)
        if not t.a or t.op in ("bv", "lam", "sym"):
            return t
        na = ra(t.a)
        r = build(t.op, na) if na != t.a else t
        ty = tyof(t)
        if ty is not None:
            settype(r, ty)
        if r.op == "call":
            n = last(r.a[0])
            a = r.a[2]
            if n in ("SecretKey::public_key", "PublicKey::from_secret_key", "PublicKey::from_private_key"):
                k = [x for x in a if not secp(x)]
                return settype(mk("pub", *k), p12.PK)
            if n == "PublicKey::new" and len(a) == 1:
                return mk("bpub", a[0])
            if n in ("PublicKey::x_only_public_key", "XOnlyPublicKey::from"):
                return tup(mk("xonly", a[0]), mk("parity", a[0])) if n.startswith("PublicKey") else mk("xonly", a[0])
            if n == "ExtendedPrivKey::derive_priv":
                k = [x for x in a if not secp(x)]
                return settype(adt(RES, 0, settype(mk("child", k[0], k[1]), XPRV)), None) if len(k) == 2 else r
            if n == "ExtendedPrivKey::to_priv":
                return settype(mk("priv", a[0]), ty)
        if r.op == "adt" and r.a[0].endswith("util::key::PublicKey") and len(r.a) == 4:
            f = {fn["n"]: x for fn, x in zip(c.prog.adts[r.a[0]]["v"][0]["f"], r.a[2:])}
            if f.get("compressed") is TRUE:
                return mk("bpub", f["inner"])
        if r.op == "conv" and str(r.a[0]).endswith("::XOnlyPublicKey") and tyof(r.a[1]) == p12.PK:
            return mk("xonly", r.a[1])
        if r.op == "fld" and r.a[0].op == "priv" and r.a[1] == c.prog.field_index(BT + "key::PrivateKey", "inner"):
            return settype(e.proj(r.a[0].a[0], ("f", c.prog.field_index(XPRV[1], "private_key"))), SK)
        return r
    return go(t)


def secp(x):
    t = unref(tyof(x))
    return t is not None and t[0] == "adt" and t[1].endswith("::Secp256k1") or x.op == "call" and "Secp256k1" in x.a[0]


def pathok(path):
    """(the text is a derivation path, the path)"""
    t = ("adt", BT + "bip32::DerivationPath", ())
    p = [x for x in path]
    e = engine.ENG
    r = [is_label(e.discr(x, ("adt", RES, (t, None))), 0) for x in p]
    return r


def parsed(c, s):
    """the derivation paths read from text in s: {text: path}"""
    out = {}
    for t in subterms(s):
        if t.op == "call" and last(t.a[0]) == "FromStr::from_str" and "DerivationPath" in str(t.a[1]):
            out[models.asbytes(t.a[2][0])] = t
    return out


def child(master, path):
    return settype(mk("child", master, path), XPRV)


def keyof(c, x):
    return settype(engine.ENG.proj(x, ("f", c.prog.field_index(XPRV[1], "private_key"))), SK)


def text(*ps):
    return cat([mk("spr", bytes_(p.encode()) if isinstance(p, str) else models.asbytes(settype(mk("disp", p), STRING))) for p in ps])


def frompath(c, txt):
    """the term for parsing a path"""
    t = ("adt", RES, (("adt", BT + "bip32::DerivationPath", ()), ("adt", BT + "bip32::Error", ())))
    return settype(mk("call", "core::str::traits::FromStr::from_str", t, (txt,)), t)


def derives(c, G, key, master, txt, name, where, s):
    """key is the private key of the child of master along the path written txt"""
    key = canon(c, simp(G, key))
    e = engine.ENG
    want = None
    for g, k in cases(key):
        G2 = And(G, g)
        if G2 is FALSE or num.refute(G2):
            continue
        ok = False
        if k.op == "fld" and k.a[0].op == "child" and k is keyof(c, k.a[0]):
            m, p = k.a[0].a
            src = pathsource(p)
            if c.prog is not None and src is not None:
                ok = same_by_cases(G2, m, master) and same_by_cases(G2, models.asbytes(src), simp(G2, txt))
        if not ok:
            c.fact(False, name, where, f"the private key is not the child of the master key along the documented path\n      found:    {show(k)[:500]}\n      expected: path {show(simp(G2, txt))[:300]}")
            return
    c.fact(True, name, where, "")


def cases(t):
    from terms import paths
    out = []
    for ls, x in paths(t, 400):
        g = TRUE
        for v, l in ls:
            g = And(g, lit(v, l) if l is not None else TRUE)
        out.append((g, x))
    return out


def pathsource(p):
    """the text a parsed path came from"""
    e = engine.ENG
    for t in subterms(p):
        if t.op == "call" and last(t.a[0]) == "FromStr::from_str" and p is e.payload(t, 0):
            return t.a[2][0]
    return None


def args_by(c, s, **want):
    out = {}
    for n, t in want.items():
        r = [x for x in s.args if unref(tyof(x)) == t]
        if len(r) != 1:
            raise Missing(f"the {n} parameter of {s.where()}")
        out[n] = r[0]
    return out


def master(c):
    e = engine.ENG
    m = mk("sym", "mnemonic", STR)
    s = c.run(c.fn(WL + "Wallet::new"), [m], subs=(("ref", False, STR),))
    v = s.okval
    mnf = c.bytype(v, MN[1])
    src = [t for t in subterms(s.ret) if t.op == "call" and last(t.a[0]) in ("FromStr::from_str", "Mnemonic::parse", "Mnemonic::parse_normalized", "Mnemonic::parse_in_normalized") and t.a[2] and models.asbytes(t.a[2][-1]) is models.asbytes(m)]
    src = list(set(src))
    if not c.fact(len(src) == 1, "wallet:mnemonic-read", s.where(), "the mnemonic is not read from the given words"):
        return
    mn = e.payload(src[0], 0)
    c.same(s.ok, mnf, mn, "wallet:mnemonic", s.where(), "the wallet does not keep the mnemonic it was made from")
    x = simp(s.ok, c.bytype(v, XPRV[1]))
    nm = [t for t in subterms(x) if t.op == "call" and last(t.a[0]) == "ExtendedPrivKey::new_master"]
    nm = list(set(nm))
    ok = len(nm) == 1 and x is e.payload(nm[0], 0)
    if c.fact(ok, "wallet:master", s.where(), f"the master key is not the one made from a seed: {show(x)[:200]}"):
        sd = nm[0].a[2][1]
        ok = sd.op == "call" and last(sd.a[0]) in ("Mnemonic::to_seed", "Mnemonic::to_seed_normalized")
        c.fact(ok and sd.a[2][0] is mn, "wallet:seed", s.where(), f"the seed is not that of the mnemonic: {show(sd)[:200]}")
        c.fact(ok and ln(models.asbytes(sd.a[2][1])) is ZERO, "wallet:passphrase", s.where(), f"the seed is not made with the empty passphrase: {show(sd)[:200]}")
        g = And(is_label(e.discr(src[0], ("adt", RES, (MN, None))), 0), is_label(e.discr(nm[0], ("adt", RES, (XPRV, None))), 0))
        c.implies(g, s.ok, "wallet:accepts", s.where(), "a valid mnemonic is refused")
    # accessors
    w = adt(WL + "Wallet", 0, *[mk("sym", f"w{i}", c.prog.field_type(("adt", WL + "Wallet", ()), 0, i)) for i in range(c.prog.nfields(WL + "Wallet"))])
    mk_, xp = c.bytype(w, MN[1]), c.bytype(w, XPRV[1])
    s = c.run(c.fn(WL + "Wallet::mnemonic"), [w])
    c.same(TRUE, s.ret, mk_, "wallet:mnemonic-reported", s.where(), "the mnemonic reported is not the wallet's")
    s = c.run(c.fn(WL + "Wallet::master_key"), [w])
    c.same(TRUE, canon(c, s.ret), keyof(c, xp), "wallet:key-reported", s.where(), "the master key reported is not the wallet's")
    s = c.run(c.fn(WL + "Wallet::wif"), [w])
    n = args_by(c, s, network=("adt", NET, ()))["network"]
    same_wif(c, s, n, keyof(c, xp), "wallet:wif")
    # credentials are derived from the wallet's own key, network and index
    for m_, t_, nt in (("credentials", "Credentials", ("adt", NET, ())), ("bitcoin_credentials", "BitcoinCredentials", ("adt", spec.net_path(c), ()))):
        s = c.run(c.fn(WL + "Wallet::" + m_), [w])
        a = args_by(c, s, network=nt, index=("num", "u32"))
        bid = c.fn(WL + t_ + "::new")
        r = byrole(c, bid, {"network": nt, "master": XPRV, "index": ("num", "u32")})
        av = [None] * 3
        av[r["network"]], av[r["master"]], av[r["index"]] = a["network"], xp, a["index"]
        s2 = c.run(bid, av)
        c.same(TRUE, s.ret, s2.ret, f"wallet:{m_}", s.where(), "the credentials are not those of the wallet's master key, the network and the index asked for")


def byrole(c, bid, roles):
    b = c.prog.bodies[bid]
    out = {}
    for i in range(b["args"]):
        t = unref(c.prog.ltypes(b)[i + 1])
        for r, w in roles.items():
            if t == w:
                if r in out:
                    raise Missing(f"distinct {r} parameter of {b['name']}")
                out[r] = i
    if set(out) != set(roles) or len(out) != b["args"]:
        raise Missing(f"parameters {sorted(roles)} of {b['name']}")
    return out


def same_wif(c, s, net, key, name):
    bid = c.fn("stacks_core::crypto::wif::WIF::new")
    r = byrole(c, bid, {"network": ("adt", NET, ()), "key": SK})
    av = [None] * 2
    av[r["network"]], av[r["key"]] = net, key
    w = c.run(bid, av)
    c.same(s.cur, canon(c, c.core_of(s.ret)), canon(c, c.core_of(w.ret)), name, s.where(), "the import string is not that of this role's key and the wallet's network")


def random_(c):
    s = c.run(c.fn(WL + "Wallet::random"))
    ent = list({t for t in subterms(s.ret) if t.op == "call" and last(t.a[0]) == "Mnemonic::from_entropy"})
    gen = list({t for t in subterms(s.ret) if t.op == "call" and last(t.a[0]) in ("Mnemonic::generate", "Mnemonic::generate_in", "Mnemonic::generate_in_with")})
    if not ent and len(gen) == 1:
        c.fact(True, "random:generated", s.where(), "")
        return
    if c.fact(len(ent) == 1, "random:entropy", s.where(), "a random wallet is not made from one piece of entropy"):
        x = ent[0].a[2][-1]
        c.fact(israndom(x), "random:fresh", s.where(), f"the entropy is not entirely fresh randomness: {show(x)[:200]}")
        n = ln(x)
        c.fact(n.op == "int" and n.a[0] == 32, "random:256-bits", s.where(), f"the entropy is not 32 bytes: {show(n)}")
        mn = engine.ENG.payload(ent[0], 0)
        v = simp(s.ok, c.bytype(s.okval, MN[1]))
        ok = v is mn or any(t.op == "disp" and t.a[0] is mn for t in subterms(v))
        c.fact(ok, "random:mnemonic", s.where(), "the wallet's mnemonic is not the one made from the entropy")


def israndom(x):
    if x.op == "call" and x.a[0].split("::")[0] in ("rand", "getrandom", "rand_core"):
        return True
    return x.op == "mut" and x.a[0].op == "call" and last(x.a[0].a[0]) in ("RngCore::fill_bytes", "Rng::fill", "RngCore::try_fill_bytes")


def stacks(c):
    bid = c.fn(WL + "Credentials::new")
    r = byrole(c, bid, {"network": ("adt", NET, ()), "master": XPRV, "index": ("num", "u32")})
    s = c.run(bid)
    net, ms, ix = (s.args[r[k]] for k in ("network", "master", "index"))
    G, w = s.ok, s.where()
    v = simp(G, s.okval)
    txt = text("m/44'/5757'/0'/0/", ix)
    derives(c, G, c.bytype(v, SK[1]), ms, txt, "stacks:path", w, s)
    c.same(G, c.bytype(v, NET), net, "stacks:network", w, "the credentials are not for the network asked for")
    p = frompath(c, txt)
    ps = [t for t in parsed(c, s.ret).values()]
    g = TRUE
    for t in ps:
        g = And(g, is_label(engine.ENG.discr(t, tyof(t)), 0))
    c.fact(bool(ps), "stacks:path-read", w, "no derivation path is read")
    unw = [o for o in s.obl]
    for o in unw:
        g = And(g, Not(o.guard))
    c.implies(g, s.ok, "stacks:accepts", w, "a valid index is refused")
    # accessors
    x = adt(WL + "Credentials", 0, *[mk("sym", f"c{i}", c.prog.field_type(("adt", WL + "Credentials", ()), 0, i)) for i in range(c.prog.nfields(WL + "Credentials"))])
    key, nt = c.bytype(x, SK[1]), c.bytype(x, NET)
    get = lambda m: c.run(c.fn(WL + "Credentials::" + m), [x])
    s = get("private_key")
    c.same(TRUE, s.ret, key, "stacks:private_key", s.where(), "the private key reported is not the credentials'")
    s = get("network")
    c.same(TRUE, s.ret, nt, "stacks:network-reported", s.where(), "the network reported is not the credentials'")
    s = get("public_key")
    c.same(TRUE, canon(c, s.ret), settype(mk("pub", key), p12.PK), "stacks:public_key", s.where(), "the public key is not that of the private key")
    s = get("wif")
    same_wif(c, s, nt, key, "stacks:wif")
    s = get("address")
    e = engine.ENG
    ver = {"Mainnet": "MainnetSingleSig", "Testnet": "TestnetSingleSig"}
    want = case_on(e.discr(nt, ("adt", NET, ())), {c.prog.variant_discr(NET, i): I(spec.VERSIONS[ver[n]]) for n, i in spec.variants(c, NET).items()})
    c.same(TRUE, e.discr(c.bytype(s.ret, spec.AVER), ("adt", spec.AVER, ())), want, "stacks:address:version", s.where(), "the version of the address is not the single signature one of the network")
    hf = [i for i in range(2) if c.prog.field_type(("adt", spec.ADDR, ()), 0, i) != ("adt", spec.AVER, ())]
    h = canon(c, c.core_of(e.proj(s.ret, ("f", hf[0]))))
    c.same(TRUE, h, canon(c, p12.hash160(p12.ser(settype(mk("pub", key), p12.PK)))), "stacks:address:hash", s.where(), "the address is not that of the public key")


def bitcoin(c):
    BC = WL + "BitcoinCredentials"
    np = spec.net_path(c)
    bid = c.fn(BC + "::new")
    r = byrole(c, bid, {"network": ("adt", np, ()), "master": XPRV, "index": ("num", "u32")})
    s = c.run(bid)
    net, ms, ix = (s.args[r[k]] for k in ("network", "master", "index"))
    G, w = s.ok, s.where()
    v = simp(G, s.okval)
    e = engine.ENG
    vs = spec.variants(c, np)
    g = TRUE
    ps = parsed(c, s.ret)
    for t in ps.values():
        g = And(g, is_label(e.discr(t, tyof(t)), 0))
    for o in s.obl:
        g = And(g, Not(o.guard))
    c.fact(len(ps) >= 3, "bitcoin:path-read", w, "fewer than three derivation paths are read")
    c.implies(g, s.ok, "bitcoin:accepts", w, "a valid index is refused")
    nr = c.run(c.fn(BC + "::network"), [v])
    c.same(G, nr.ret, net, "bitcoin:network", w, "the credentials are not for the network asked for")
    x = adt(BC, 0, *[mk("sym", f"b{i}", c.prog.field_type(("adt", BC, ()), 0, i)) for i in range(c.prog.nfields(BC))])
    nt = c.bytype(x, np)
    nr = c.run(c.fn(BC + "::network"), [x])
    c.same(TRUE, nr.ret, nt, "bitcoin:network-reported", nr.where(), "the network reported is not the credentials'")
    seen = []
    for kind, purpose in PURPOSE.items():
        kr = c.run(c.fn(f"{BC}::private_key_{kind}"), [v])
        txt = case_on(e.discr(net, ("adt", np, ())), {c.prog.variant_discr(np, i): text(f"m/{purpose}'/" + ("0" if n == "Bitcoin" else "1") + "'/", ix, "'/0/0") for n, i in vs.items()})
        derives(c, G, kr.ret, ms, txt, f"bitcoin:{kind}:path", kr.where(), s)
        key = c.run(c.fn(f"{BC}::private_key_{kind}"), [x]).ret
        c.fact(key.op == "sym" and key not in seen, f"bitcoin:{kind}:own-key", kr.where(), "the key of this role is shared with another role")
        seen.append(key)
        pub = settype(mk("pub", key), p12.PK)
        pr = c.run(c.fn(f"{BC}::public_key_{kind}"), [x])
        c.same(TRUE, canon(c, pr.ret), pub, f"bitcoin:{kind}:public_key", pr.where(), "the public key is not that of this role's private key")
        wr = c.run(c.fn(f"{BC}::wif_{kind}"), [x])
        sn = case_on(e.discr(nt, ("adt", np, ())), {c.prog.variant_discr(np, i): adt(NET, spec.variants(c, NET)["Mainnet" if n == "Bitcoin" else "Testnet"]) for n, i in vs.items()})
        same_wif(c, wr, sn, key, f"bitcoin:{kind}:wif")
        ar = c.run(c.fn(f"{BC}::address_{kind}"), [x])
        a = canon(c, simp(ar.cur, ar.ret))
        if kind == "p2pkh":
            ok = a.op == "call" and last(a.a[0]) == "Address::p2pkh" and list(a.a[2]) == [mk("bpub", pub), nt]
        elif kind == "p2wpkh":
            cs = [t for t in subterms(a) if t.op == "call" and last(t.a[0]) == "Address::p2wpkh"]
            ok = len(set(cs)) == 1 and a is e.payload(cs[0], 0) and list(cs[0].a[2]) == [mk("bpub", pub), nt]
        else:
            ok = a.op == "call" and last(a.a[0]) == "Address::p2tr" and [y for y in a.a[2] if not secp(y)] == [mk("xonly", pub), NONE, nt]
        c.fact(ok, f"bitcoin:{kind}:address", ar.where(), f"the address is not the {kind} one of this role's public key on the wallet's network: {show(a)[:300]}")


PARTS = [master, random_, stacks, bitcoin]
