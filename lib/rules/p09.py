"""Abstract interpretation of the wallet import format: the condition under which bytes or a string
are accepted, the bytes that are made from a network and a key, and the network and key reported back
are expressed as terms and compared with the documented layout; constructor and parser are composed."""
from fw import *
import spec
import models2

LEVEL = "other"
RULE = "accepted iff 38 bytes, known prefix, valid key, compression byte 1 and checksum = first 4 bytes of the double SHA-256 of the first 34; made = prefix(network) key 1 checksum; network and key read back from their places"
ASSUME = ["secp256k1: a key's secret bytes are accepted by from_slice and give the key back", "base58 from/encode_slice are inverse"]

W = "stacks_core::crypto::wif::WIF"
NET = "stacks_core::Network"
PREFIX = {"Mainnet": 128, "Testnet": 239}
SK = ("adt", "secp256k1::key::SecretKey", ())


def hash2(b):
    return models2.hash_("sha256", models2.hash_("sha256", b))


def from_slice(b):
    return mk("call", "secp256k1::key::SecretKey::from_slice", None, (b,))


def keyok(b):
    return is_label(engine.ENG.discr(settype(from_slice(b), ("adt", RES, (SK, None))), ("adt", RES, (SK, None))), 0)


def valid(b):
    """the documented acceptance condition on the bytes b"""
    g = eq(ln(b), I(38))
    g = And(g, Or(*[eq(nth(b, ZERO), I(x)) for x in PREFIX.values()]))
    g = And(g, keyok(slice_(b, ONE, I(33))))
    g = And(g, eq(nth(b, I(33)), ONE))
    return And(g, eq(slice_(hash2(slice_(b, ZERO, I(34))), ZERO, I(4)), slice_(b, I(34), None)))


def wifsym(n="wif"):
    return mk("sym", n, ("adt", W, ()))


def raw(c, v):
    b = c.core_of(v)
    settype(b, ("array", U8, ("cval", 38)))
    return b


def reader(c):
    data = mk("sym", "data", BYTES)
    s = c.run(c.fn(W + "::from_bytes"), [data], subs=(("ref", False, BYTES),))
    check(c, s, data, TRUE, "from_bytes")
    text = mk("sym", "text", STRING)
    s = c.call("core::convert::TryFrom", ("adt", W, ()), "try_from", [text], (STRING,))
    ds = {t for t in subterms(s.ret) if t.op == "call" and t.a[0].endswith("base58::from")}
    if len(ds) != 1:
        raise Missing(f"decoding of the text in {s.where()}")
    d = ds.pop()
    c.fact(models.asbytes(d.a[2][0]) is models.asbytes(text), "try_from:text", s.where(), "it is not the given text that is decoded")
    e = engine.ENG
    b = e.payload(d, 0)
    settype(b, VECU8)
    check(c, s, b, is_label(e.discr(d, ("adt", RES, (VECU8, None))), 0), "try_from")


def check(c, s, b, pre, key):
    V = And(pre, valid(b))
    c.implies(V, s.ok, key + ":accepts", s.where(), "a valid WIF is refused")
    for g, nm in ((pre, "decodes"), (eq(ln(b), I(38)), "length"), (Or(*[eq(nth(b, ZERO), I(x)) for x in PREFIX.values()]), "prefix"), (keyok(slice_(b, ONE, I(33))), "key"),
                  (eq(nth(b, I(33)), ONE), "compression"), (eq(slice_(hash2(slice_(b, ZERO, I(34))), ZERO, I(4)), slice_(b, I(34), None)), "checksum")):
        c.implies(s.ok, g, f"{key}:{nm}", s.where(), f"a WIF whose {nm} is wrong is accepted")
    c.same(And(s.ok, V), c.core_of(s.okval), b, key + ":bytes", s.where(), "the WIF does not keep the bytes it was read from")
    c.total(s, key, "reading a WIF")


def writer(c):
    t = ("adt", W, ())
    x = wifsym()
    b = raw(c, x)
    s = c.call("alloc::string::ToString", t, "to_string", [x])
    r = s.ret
    c.fact(s.cur is TRUE and r.op == "call" and r.a[0].endswith("base58::encode_slice") and r.a[2][0] is b, "to_string", s.where(), f"the text is not the base 58 form of the bytes: {show(r)[:200]}")
    bid = c.fn(W + "::new")
    s = c.run(bid)
    net, key = roles(c, s)
    p = case_on(engine.ENG.discr(net, ("adt", NET, ())), {c.prog.variant_discr(NET, i): I(PREFIX[n]) for n, i in spec.variants(c, NET).items()})
    kb = settype(mk("call", "secp256k1::key::SecretKey::secret_bytes", None, (key,)), ("array", U8, ("cval", 32)))
    body = cat([one(p), mk("spr", kb), one(ONE)])
    want = cat([mk("spr", body), mk("spr", slice_(hash2(body), ZERO, I(4)))])
    c.same(s.cur, c.core_of(s.ret), want, "new:bytes", s.where(), "the bytes made from a network and a key are not the documented ones")
    c.total(s, "new", "making a WIF")
    # composed with the readers
    made = s.ret
    okk = settype(from_slice(kb), ("adt", RES, (SK, None)))
    m = {okk: adt(RES, 0, key)}
    v = norm(subst(c.core_of(made), {}))
    r = c.run(c.fn(W + "::from_bytes"), [v], subs=(("ref", False, BYTES),))
    c.implies(TRUE, norm(subst(r.ok, m)), "new:accepted", r.where(), "a WIF made from a network and a key is not valid")
    r = c.run(c.fn(W + "::network"), [made])
    c.implies(TRUE, r.ok, "new:network-known", r.where(), "the network of a made WIF is unknown")
    c.same(r.ok, engine.ENG.discr(r.okval, ("adt", NET, ())), engine.ENG.discr(net, ("adt", NET, ())), "new:network", r.where(), "the network of a WIF is not the one it was made with")
    r = c.run(c.fn(W + "::private_key"), [made])
    got = norm(subst(r.ret, m))
    c.same(TRUE, got, adt(RES, 0, key), "new:key", r.where(), "the key of a WIF is not the one it was made with")


def roles(c, s):
    net = [x for x in s.args if unref(tyof(x)) == ("adt", NET, ())]
    key = [x for x in s.args if unref(tyof(x)) == SK]
    if len(net) != 1 or len(key) != 1:
        raise Missing("the network and key parameters of the WIF constructor")
    return net[0], key[0]


def accessors(c):
    x = wifsym()
    b = raw(c, x)
    e = engine.ENG
    s = c.run(c.fn(W + "::network"), [x])
    for n, i in spec.variants(c, NET).items():
        g = eq(nth(b, ZERO), I(PREFIX[n]))
        c.implies(g, s.ok, f"network:{n}:known", s.where(), "a documented prefix has no network")
        c.same(And(g, s.ok), e.discr(s.okval, ("adt", NET, ())), I(c.prog.variant_discr(NET, i)), f"network:{n}", s.where(), "the prefix is taken for another network")
    c.implies(s.ok, Or(*[eq(nth(b, ZERO), I(x)) for x in PREFIX.values()]), "network:other", s.where(), "an unknown prefix is given a network")
    c.total(s, "network", "reading the network")
    s = c.run(c.fn(W + "::private_key"), [x])
    k = slice_(b, ONE, I(33))
    c.same(TRUE, s.ok, keyok(k), "private_key:ok", s.where(), "the key is not reported exactly when it is valid")
    c.same(s.ok, s.okval, e.payload(settype(from_slice(k), ("adt", RES, (SK, None))), 0), "private_key", s.where(), "the key is not the 32 bytes after the prefix")
    c.total(s, "private_key", "reading the key")


PARTS = [reader, writer, accessors]
