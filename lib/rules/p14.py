"""Abstract interpretation of every conversion that names a network or an address version, compared
case by case with the published tables; text forms are compared with the readers' acceptance
conditions and with the form used when serialised."""
from fw import *
import spec

LEVEL = "other"
RULE = "conversion of a network or version = the published table, for every variant and for every byte or text"
ASSUME = ["serde hands a derived reader the string that was written"]
N = ("adt", "stacks_core::Network", ())
NAMES = {"Mainnet": "mainnet", "Testnet": "testnet"}


def table(c, x, t, m):
    """the value chosen by the variant of x: {variant name: term}"""
    return case_on(engine.ENG.discr(x, t), {c.prog.variant_discr(t[1], i): m[n] for n, i in spec.variants(c, t[1]).items()})


def networks(c):
    B = ("adt", spec.net_path(c), ())
    nv, bv = spec.variants(c, N[1]), spec.variants(c, B[1])
    c.fact(set(nv) == set(NAMES), "networks:variants", "stacks-core/src/lib.rs", "the Stacks networks are not Mainnet and Testnet")
    s = conv(c, B, N)
    c.same(TRUE, engine.ENG.discr(s.ret, N), table(c, s.args[0], B, {n: I(c.prog.variant_discr(N[1], nv["Mainnet" if n == "Bitcoin" else "Testnet"])) for n in bv}), "networks:from-bitcoin", s.where(), "a Bitcoin network is mapped to the wrong Stacks network")
    c.total(s, "networks:from-bitcoin", "a network has no counterpart")
    s2 = conv(c, N, B)
    c.same(TRUE, engine.ENG.discr(s2.ret, B), table(c, s2.args[0], N, {n: I(c.prog.variant_discr(B[1], bv["Bitcoin" if n == "Mainnet" else "Testnet"])) for n in nv}), "networks:to-bitcoin", s2.where(), "a Stacks network is mapped to the wrong Bitcoin network")
    c.total(s2, "networks:to-bitcoin", "a network has no counterpart")
    # there and back
    bid, sub = entry(c, B, N)
    s3 = c.run(bid, [s2.ret], subs=sub)
    c.same(TRUE, engine.ENG.discr(s3.ret, N), engine.ENG.discr(s2.args[0], N), "networks:round", s3.where(), "a network is not mapped back to itself")
    # texts
    want = table(c, mk("sym", "n", N), N, {n: S(x) for n, x in NAMES.items()})
    s = c.call("core::convert::Into", N, "into", [mk("sym", "n", N)], targs=(STRING,)) if c.prog.find_impl("core::convert::Into", N, (N, STRING)) else c.call("core::convert::From", STRING, "from", [mk("sym", "n", N)], targs=(N,))
    c.same(TRUE, models.asbytes(s.ret), models.asbytes(want), "networks:text", s.where(), "the text form of a network is not its name in lower case")
    e = engine.Engine(c.prog)
    d = e.deep(models.display(e, mk("sym", "n", N), N))
    c.same(TRUE, models.asbytes(d), models.asbytes(want), "networks:display", "stacks-core/src/lib.rs", "a network is not displayed as its name in lower case")
    for key, tr, ta, m, g in (("parse", "core::str::traits::FromStr", (), "from_str", False), ("try_from-str", "core::convert::TryFrom", (("ref", False, STR),), "try_from", False), ("try_from-string", "core::convert::TryFrom", (STRING,), "try_from", False)):
        s = c.call(tr, N, m, targs=ta)
        reads(c, s, s.args[0], TRUE, "networks:" + key)
    s = c.call("serde_core::ser::Serialize", N, "serialize", [mk("sym", "n", N)])
    w = [t for t in subterms(s.ret) if t.op == "call" and t.a[0].split("::")[-1] in ("serialize", "serialize_str", "collect_str")]
    if c.fact(len(set(w)) == 1 and s.ret is w[0], "networks:serialise:one", s.where(), "a network is not serialised as one text"):
        tx = [x for x in w[0].a[2] if x.op != "sym"]
        c.fact(len(tx) == 1, "networks:serialise:text-arg", s.where(), "a network is not serialised as one text") and c.same(TRUE, models.asbytes(tx[0]), models.asbytes(want), "networks:serialise", s.where(), "a network is not serialised as its text form")
    bid, sub = c.method("serde_core::de::Deserialize", N, "deserialize")
    s = c.run(bid, subs=sub)
    src = list({t for t in subterms(s.ret) if t.op == "call" and t.a[0].split("::")[-1] in ("deserialize", "deserialize_str", "deserialize_string")})
    if c.fact(len(src) == 1, "networks:deserialise:one", s.where(), "a network is not read from one text"):
        reads(c, s, engine.ENG.payload(src[0], 0), is_label(engine.ENG.discr(src[0], ("adt", RES, (STRING, None))), 0), "networks:deserialise")


def entry(c, a, b):
    if c.prog.find_impl("core::convert::Into", a, (a, b)):
        return c.method("core::convert::Into", a, "into", targs=(b,))
    return c.method("core::convert::From", b, "from", targs=(a,))


def conv(c, a, b):
    bid, sub = entry(c, a, b)
    return c.run(bid, subs=sub)


def reads(c, s, x, G, key):
    """s reads a network from the text x"""
    low = settype(mk("lower", x), models.STRT)
    gs = {n: eq(low, S(t)) for n, t in NAMES.items()}
    nv = spec.variants(c, N[1])
    some = FALSE
    for n, g in gs.items():
        others = Ands([Not(h) for m, h in gs.items() if m != n])
        g = Ands([G, g, others])
        c.implies(g, s.ok, f"{key}:{n}:accepts", s.where(), "a network's name is refused")
        c.same(g, engine.ENG.discr(simp(g, s.okval), N), I(c.prog.variant_discr(N[1], nv[n])), f"{key}:{n}", s.where(), "a network's name is read as another network")
        some = Or(some, gs[n])
    c.implies(s.ok, some, key + ":refuses", s.where(), "a text that is no network's name is accepted")
    c.total(s, key, "reading a network's name can panic")


def versions(c):
    A = ("adt", spec.AVER, ())
    vs = spec.variants(c, spec.AVER)
    c.fact({n: c.prog.variant_discr(spec.AVER, i) for n, i in vs.items()} == spec.VERSIONS, "versions:codes", "stacks-core/src/address.rs", "an address version does not have its published code")
    s = c.call("core::convert::TryFrom", A, "try_from", targs=(U8,))
    x = s.args[0]
    some = FALSE
    for n, k in spec.VERSIONS.items():
        g = is_label(x, k)
        some = Or(some, g)
        c.implies(g, s.ok, f"versions:{n}:accepts", s.where(), "a published version code is refused")
        c.same(g, engine.ENG.discr(simp(g, s.okval), A), I(c.prog.variant_discr(spec.AVER, vs[n])) if n in vs else BOT, f"versions:{n}", s.where(), "a version code is read as another version")
    c.implies(s.ok, some, "versions:refuses", s.where(), "a byte that is no version code is accepted")
    c.total(s, "versions", "reading a version code can panic")


def opcodes(c):
    O = ("adt", spec.adtpath(c, "sbtc_core::operations::Opcode"), ())
    vs = spec.variants(c, O[1])
    c.fact({n: c.prog.variant_discr(O[1], i) for n, i in vs.items()} == spec.OPCODES, "opcodes:codes", "sbtc-core/src/operations/mod.rs", "an operation does not have its documented code")
    s = c.run(c.fn("sbtc_core::operations::magic_bytes"))
    c.same(TRUE, s.ret, spec.magic(c, s.args[0]), "opcodes:magic", s.where(), "the marker of a network is not the documented one")


PARTS = [networks, versions, opcodes]
