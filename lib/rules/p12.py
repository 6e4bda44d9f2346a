"""Abstract interpretation of the hash types and of the hashes behind addresses: every constructor,
accessor and conversion of the hash types is expressed as a term over its input and compared with the
documented function (which digest of which bytes, which length is accepted, which bytes come back)."""
from fw import *
import spec
import models2

LEVEL = "other"
RULE = "hash(data) = documented digests of data; as_bytes/as_ref/hex = its bytes; from_bytes/from_hex accept exactly the documented length and keep the bytes; checksum = first 4 bytes; address hash modes = hash160 of the documented script"
ASSUME = ["SHA-256, RIPEMD-160, hex and the Script builder are what their libraries say", "PublicKey::serialize is the 33 byte compressed form", "an address has fewer than 256 keys"]

H = "stacks_core::crypto::"
HASHING = H + "Hashing"
SHA, RIP = "sha256", "ripemd160"
ALG = {
    "Hash160": (H + "hash160::Hash160Hashing", 20, (SHA, RIP)),
    "Sha256": (H + "sha256::Sha256Hashing", 32, (SHA,)),
    "DoubleSha256": (H + "sha256::DoubleSha256Hashing", 32, (SHA, SHA)),
}


def digest(algs, b):
    for a in algs:
        b = models2.hash_(a, b)
    return b


def hash160(b):
    return digest((SHA, RIP), b)


def types(c):
    for nm, (path, n, algs) in ALG.items():
        c.has_adt(path)
        t = ("adt", path, ())
        yield nm, t, n, algs
        yield nm + "Hasher", ("adt", c.has_adt(H + "Hasher"), (t, ("cval", n))), n, algs


def core(c, v):
    return c.core_of(v)


def symh(t, n):
    return mk("sym", "h", t)


def bytes_of(c, t, v, n):
    """the representation of a hash value, as bytes of the right length"""
    x = eta(c.prog, v, t)
    b = c.core_of(x)
    settype(b, ("array", U8, ("cval", n)))
    return b


def hashing(c):
    for nm, t, n, algs in types(c):
        N = ("cval", n)
        data = mk("sym", "data", BYTES)
        for m, extra in (("hash", ()), ("new", (("ref", False, BYTES),))):
            s = c.call(HASHING, t, m, [data], (N,), extra)
            c.implies(TRUE, s.cur, f"{nm}:{m}:total", s.where(), "hashing fails for some data")
            c.same(TRUE, core(c, s.ret), digest(algs, data), f"{nm}:{m}", s.where(), "the hash is not the documented digest of the data")
        h = mk("sym", "h", t)
        hb = bytes_of(c, t, h, n)
        s = c.call(HASHING, t, "as_bytes", [h], (N,))
        c.same(s.cur, s.ret, hb, f"{nm}:as_bytes", s.where(), "the bytes of a hash are not the hash")
        s = c.call(HASHING, t, "checksum", [h], (N,))
        c.total(s, f"{nm}:checksum", "computing the checksum")
        c.same(s.cur, s.ret, slice_(hb, ZERO, I(4)), f"{nm}:checksum", s.where(), "the checksum is not the first four bytes of the hash")
        s = c.call(HASHING, t, "from_bytes", [data], (N,))
        accept(c, s, eq(ln(data), I(n)), data, f"{nm}:from_bytes")
        s = c.call(HASHING, t, "to_hex", [h], (N,))
        c.same(s.cur, models.asbytes(s.ret), models.asbytes(hexs(hb)), f"{nm}:to_hex", s.where(), "the hexadecimal form is not that of the bytes of the hash")
        x = mk("sym", "text", STR)
        s = c.call(HASHING, t, "from_hex", [x], (N,), (("ref", False, STR),))
        g, d = unhex(c, s, x)
        accept(c, s, And(g, eq(ln(d), I(n))), d, f"{nm}:from_hex")
        # the conversions serialisation uses
        hx = ("adt", c.has_adt(H + "Hex"), ())
        s = c.call("core::convert::Into", t, "into", [h], (hx,))
        c.same(s.cur, models.asbytes(core(c, s.ret)), models.asbytes(hexs(hb)), f"{nm}:into-hex", s.where(), "the serialised form is not that of the bytes of the hash")
        s = c.call("core::convert::TryFrom", t, "try_from", [adt(hx[1], 0, settype(mk("sym", "text", STRING), STRING))], (hx,))
        g, d = unhex(c, s, None)
        accept(c, s, And(g, eq(ln(d), I(n))), d, f"{nm}:from-hex")
        s = c.call(HASHING, t, "zeroes", [], (N,))
        c.total(s, f"{nm}:zeroes", "making the zero hash")
        c.same(s.cur, core(c, s.ret), rep(ZERO, I(n)), f"{nm}:zeroes", s.where(), "the zero hash is not zero")


def hexs(b):
    return settype(mk("hex", b), STRING)


def unhex(c, s, x):
    """(decoding succeeds, decoded bytes) of the one hexadecimal decoding in s"""
    ds = {t for t in subterms(s.ret) if t.op == "call" and t.a[0] == "hex::decode"}
    if len(ds) != 1:
        raise Missing(f"one hexadecimal decoding in {s.where()}")
    d = ds.pop()
    if x is not None and models.asbytes(d.a[2][0]) is not models.asbytes(x):
        raise Missing(f"decoding of the given text in {s.where()}")
    e = engine.ENG
    return is_label(e.discr(d, ("adt", RES, (None, None))), 0), e.payload(d, 0)


def accept(c, s, g, v, key):
    c.implies(g, s.ok, key + ":accepts", s.where(), "bytes of the right length are refused")
    c.implies(s.ok, g, key + ":refuses", s.where(), "something other than bytes of the documented length is accepted")
    c.same(And(s.ok, g), core(c, s.okval), v, key + ":value", s.where(), "the hash does not keep the bytes it is made from")
    c.total(s, key, "decoding a hash")


def conversions(c):
    hp = c.has_adt(H + "Hasher")
    for nm, (path, n, algs) in ALG.items():
        t = ("adt", hp, (("adt", path, ()), ("cval", n)))
        h = mk("sym", "h", t)
        hb = bytes_of(c, t, h, n)
        s = c.call("core::convert::AsRef", t, "as_ref", [h], (BYTES,))
        c.same(s.cur, s.ret, hb, f"{nm}Hasher:as_ref", s.where(), "the bytes of a hash are not the hash")
        data = mk("sym", "data", BYTES)
        s = c.call("core::convert::TryFrom", t, "try_from", [data], (("ref", False, BYTES),))
        accept(c, s, eq(ln(data), I(n)), data, f"{nm}Hasher:try_from")
        at = ("array", U8, ("cval", n))
        a = mk("sym", "bytes", at)
        s = c.call("core::convert::From", t, "from", [a], (at,))
        c.total(s, f"{nm}Hasher:from", "converting an array")
        c.same(s.cur, core(c, s.ret), a, f"{nm}Hasher:from", s.where(), "the hash does not keep the bytes it is made from")
        s = c.call("core::default::Default", t, "default", [])
        c.total(s, f"{nm}Hasher:default", "the default hash")
        c.same(s.cur, core(c, s.ret), rep(ZERO, I(n)), f"{nm}Hasher:default", s.where(), "the default hash is not zero")


A = spec.ADDR
PK = ("adt", "secp256k1::key::PublicKey", ())


def ser(k):
    return settype(mk("call", "secp256k1::key::PublicKey::serialize", None, (k,)), ("array", U8, ("cval", 33)))


def addresses(c):
    for m in ("p2pkh", "from_public_key", "p2wpkh", "p2sh", "p2wsh"):
        bid = c.fn(f"{A}::{m}")
        b = c.prog.bodies[bid]
        multi = m in ("p2sh", "p2wsh")
        subs = (("slice", ("ref", False, PK)),) if multi else ()
        s = c.run(bid, subs=subs)
        key = f"address:{m}"
        G = s.cur
        v = c.bytype(s.ret, spec.AVER)
        vi = [i for i, x in enumerate(s.args) if unref(tyof(x)) == ("adt", spec.AVER, ())]
        if len(vi) != 1:
            raise Missing(f"the version parameter of {m}")
        c.same(G, engine.ENG.discr(v, ("adt", spec.AVER, ())), engine.ENG.discr(s.args[vi[0]], ("adt", spec.AVER, ())), key + ":version", s.where(), "the address does not have the version asked for")
        hf = [i for i in range(2) if c.prog.field_type(("adt", A, ()), 0, i) != ("adt", spec.AVER, ())]
        h = c.core_of(engine.ENG.proj(s.ret, ("f", hf[0])))
        if not multi:
            ki = [i for i, x in enumerate(s.args) if unref(tyof(x)) == PK]
            if len(ki) != 1:
                raise Missing(f"the key parameter of {m}")
            k = s.args[ki[0]]
            if m == "p2wpkh":
                want = hash160(cat([one(ZERO), one(I(20)), mk("spr", hash160(ser(k)))]))
            else:
                want = hash160(ser(k))
            c.total(s, key, "making the address")
        else:
            ti = [i for i, x in enumerate(s.args) if tyof(x) == ("num", "usize")]
            ks = [x for i, x in enumerate(s.args) if i not in ti and i not in vi]
            if len(ti) != 1 or len(ks) != 1:
                raise Missing(f"the parameters of {m}")
            th, ks = s.args[ti[0]], ks[0]
            e = engine.ENG
            nk = ln(ks)
            if m == "p2sh":
                pl = [x for x in subterms(h) if x.op == "call" and x.a[0].endswith("Script::as_bytes")]
                scr = [x for x in subterms(h) if x.op == "script"]
                if len(set(scr)) != 1:
                    raise Missing("the redeem script of p2sh")
                want_s = mk("script", cat([one(adt("SINT", 0, e.intcast(th, "usize", "i64"))),
                                           mk("spr", mkflat(nk, lambda k: cat([one(adt("SPUSH", 0, ser(nth(ks, k))))]))),
                                           one(adt("SINT", 0, nk)), one(adt("SOP", 0, I(174)))]))
                c.same(G, scr[0], want_s, key + ":script", s.where(), "the redeem script is not `threshold, keys, number of keys, OP_CHECKMULTISIG`")
                want = hash160(pl[0]) if pl else None
                if want is None or pl[0].a[2][0] is not scr[0]:
                    raise Missing("the hash of the redeem script of p2sh")
            else:
                scr = cat([one(add(I(80), e.intcast(th, "usize", "u8"))),
                           mk("spr", mkflat(nk, lambda k: cat([one(I(33)), mk("spr", ser(nth(ks, k)))]))),
                           one(add(I(80), nk)), one(I(174))])
                want = hash160(cat([one(ZERO), one(I(32)), mk("spr", digest((SHA,), scr))]))
                h = subst(h, {mk("cast", "u8", nk): nk})
        c.same(G, h, want, key + ":hash", s.where(), "the address hash is not the documented hash of the keys")


def mkflat(n, f):
    k = mk("sym", "k!", ("num", "usize"))
    return flat(n, terms.lam([k], f(k)))


def accessors(c):
    t = ("adt", A, ())
    x = mk("sym", "address", t)
    bid = c.fn(A + "::version")
    s = c.run(bid, [x])
    c.same(TRUE, s.ret, c.bytype(x, spec.AVER), "address:version", s.where(), "the version reported is not the address's")
    s = c.run(c.fn(A + "::hash"), [x])
    hf = [i for i in range(2) if c.prog.field_type(t, 0, i) != ("adt", spec.AVER, ())]
    c.same(TRUE, s.ret, engine.ENG.proj(x, ("f", hf[0])), "address:hash", s.where(), "the hash reported is not the address's")
    s = c.run(c.fn(A + "::new"))
    vi = [i for i, y in enumerate(s.args) if unref(tyof(y)) == ("adt", spec.AVER, ())]
    c.same(TRUE, c.bytype(s.ret, spec.AVER), s.args[vi[0]], "address:new:version", s.where(), "the address does not have the version it is made with")
    c.same(TRUE, engine.ENG.proj(s.ret, ("f", hf[0])), s.args[1 - vi[0]], "address:new:hash", s.where(), "the address does not have the hash it is made with")


PARTS = [hashing, conversions, addresses, accessors]
