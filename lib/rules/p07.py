"""Abstract interpretation of the text forms of addresses and principals. The base conversion is kept
opaque; everything around it - prefix, version character, checksum, lengths, the split at the dot - is a
term compared with the documented form. The meaning of each single character is decided by constant
folding the decoder's summary for that character."""
from fw import *
import spec
import models2
import p12

LEVEL = "other"
RULE = "address text = S, version character, base-32 of data and first 4 bytes of the double SHA-256 of version and data; accepted iff exactly that with 20 bytes of data; principal text = address [. contract name]"
ASSUME = ["base-32 decoding inverts encoding (C01, not claimed)"]

C32 = "stacks_core::c32::"
SA = ("adt", spec.ADDR, ())
PR = ("adt", spec.PRIN, ())
AV = ("adt", spec.AVER, ())
ALPHABET = "0123456789ABCDEFGHJKMNPQRSTVWXYZ"
ALIAS = {"O": "0", "L": "1", "I": "1"}


def opaques(c):
    return [c.fn(C32 + "encode"), c.fn(C32 + "decode")]


def version_code(c, v):
    return engine.ENG.discr(v, AV)


def check4(code, data):
    body = cat([one(code), mk("spr", data)])
    return slice_(models2.hash_("sha256", models2.hash_("sha256", body)), ZERO, I(4))


def enc(t):
    return t.op == "call" and t.a[0].endswith("c32::encode")


def dec(t):
    return t.op == "call" and t.a[0].endswith("c32::decode")


def byts(t):
    return models.asbytes(t) if t.op in ("str", "utf8") or tyof(t) is not None and models.is_strty(unref(tyof(t))) else t


def writer_check(c, s, ver, data, prefix, key):
    """s.ret is prefix, version character, encoding of data and checksum"""
    code = version_code(c, ver)
    vs = {k: c.prog.variant_discr(spec.AVER, i) for k, i in spec.variants(c, spec.AVER).items()}
    es = [t for t in subterms(s.ret) if enc(t)]
    if not c.fact(len(set(es)) == 1, f"{key}:encoded", s.where(), "the text does not contain one base-32 encoding"):
        return
    E = es[0]
    want = cat([mk("spr", data), mk("spr", check4(code, data))])
    c.same(s.cur, byts(E.a[2][0]), want, f"{key}:payload", s.where(), "what is encoded is not the data followed by the checksum of version and data")
    got = models.asbytes(s.ret)
    for k, d in vs.items():
        full = cat([one(I(ord(x))) for x in prefix] + [one(I(ord(ALPHABET[spec.VERSIONS[k]]))), mk("spr", models.asbytes(E))])
        m = {code: I(d)}
        c.same(simp(TRUE, subst(s.cur, m)), norm(subst(got, m)), norm(subst(full, m)), f"{key}:text:{k}", s.where(), "the text is not the prefix, the version character and the encoding")
    c.total(s, key, "writing the text can panic")


def writer(c):
    op = opaques(c)
    for f, prefix in (("version_check_encode", ""), ("encode_address", "S")):
        s = c.run(c.fn(C32 + f), subs=(BYTES,), opaque=op)
        ver = [x for x in s.args if unref(tyof(x)) == AV]
        dat = [x for x in s.args if x not in ver]
        if len(ver) != 1 or len(dat) != 1:
            raise Missing(f"parameters of {f}")
        writer_check(c, s, ver[0], dat[0], prefix, f)
    a = mk("sym", "address", SA)
    ver = c.bytype(a, spec.AVER)
    h = [x for x in range(2) if engine.ENG.proj(a, ("f", x)) is not ver]
    data = c.core_of(engine.ENG.proj(a, ("f", h[0])))
    bid, subs = c.method("core::convert::From", STRING, "from", (SA,))
    s = c.run(bid, [a], subs=subs, opaque=op)
    writer_check(c, s, ver, data, "S", "String::from")
    imp = c.prog.find_impl("core::fmt::Display", SA, (SA,))
    if imp is None:
        raise Missing("the text form of an address")
    v = display(c, a, op)
    c.fact(v is not None and models.asbytes(v) is models.asbytes(s.ret), "Display:text", c.prog.bodies[imp[0]["items"]["fmt"]]["span"], "the text printed is not the address's text")
    # what is serialised
    ser = [i for i in c.prog.impls if i["self"] == SA and i["trait"] and i["trait"].endswith("ser::Serialize")]
    for i in ser:
        r = c.run(next(iter(i["items"].values())), opaque=op)
        ok = any(enc(t) for t in subterms(r.ret)) or any(any(enc(t) for t in subterms(x)) for l in r.log for x in l.args)
        c.fact(ok, "Serialize:text", r.where(), "an address is not serialised as its text")


def display(c, a, op):
    e = engine.ENG
    bid = c.prog.find_impl("core::fmt::Display", SA, (SA,))[0]["items"]["fmt"]
    r = c.run(bid, [a, ("mut", S(""))], opaque=op)
    return r.cell(1)


# ---------------------------------------------------------------- reading
def decs(s):
    return {t for t in subterms(gate(s.cur, s.ret)) if dec(t)}


def part_of(t, text):
    """(lo, hi) of the part of the text that t is"""
    if t is text:
        return 0, None
    if t.op == "asbytes" or t.op == "utf8":
        return part_of(t.a[0], text)
    if t.op == "slice":
        r = part_of(t.a[0], text)
        if r is None or t.a[1].op != "int" or t.a[2] is not None and t.a[2].op != "int" or r[1] is not None and t.a[2] is None:
            return None
        return r[0] + t.a[1].a[0], None if t.a[2] is None else r[0] + t.a[2].a[0]
    if t is models.asbytes(text):
        return 0, None
    return None


def reader_check(c, s, text, at, key, exact):
    """s reads a text whose version character is the one at position `at`"""
    e = engine.ENG
    ds = decs(s)
    dv = [d for d in ds if part_of(d.a[2][0], text) == (at, at + 1)]
    dd = [d for d in ds if part_of(d.a[2][0], text) == (at + 1, None)]
    if not c.fact(len(dv) == 1 and len(dd) == 1 and len(ds) == 2, f"{key}:parts", s.where(), "the text is not decoded as a version character and the rest: " + "; ".join(sorted(show(d.a[2][0])[:80] for d in ds))):
        return None
    dv, dd = dv[0], dd[0]
    rt = ("adt", RES, (VECU8, None))
    okv, okd = is_label(e.discr(dv, rt), 0), is_label(e.discr(dd, rt), 0)
    v, d = e.payload(dv, 0), e.payload(dd, 0)
    settype(v, VECU8)
    settype(d, VECU8)
    code = nth(v, ZERO)
    known = FALSE
    for k in spec.VERSIONS.values():
        known = Or(known, is_label(code, k))
    n = ln(d)
    data = slice_(d, ZERO, sub(n, I(4)))
    sound = And(okv, okd)
    pre = Ands([sound, lt(ZERO, ln(v)), le(I(4), n)])
    if exact:
        pre = And(pre, eq(n, I(24)))
    sums = eq(check4(code, data), slice_(d, sub(n, I(4)), None))
    ascii_ = boolify(mk("ascii", models.asbytes(text) if at == 0 else slice_(models.asbytes(text), I(at), None)))
    tx = models.asbytes(text)
    shape = lt(I(at), ln(text))
    if at:
        shape = Ands([shape, lt(I(5), ln(text)), is_label(nth(tx, ZERO), ord("S"))])
    for g, nm in ((okv, "version-char"), (okd, "data"), (known, "version"), (le(I(4), n), "length") if not exact else (eq(n, I(24)), "length"), (Or(Not(pre), sums), "checksum")) + (((is_label(nth(tx, ZERO), ord("S")), "prefix"),) if at else ()):
        c.implies(s.ok, g, f"{key}:{nm}", s.where(), f"a text whose {nm} is wrong is accepted")
    c.implies(Ands([shape, ascii_, pre, known, sums]), s.ok, f"{key}:accepts", s.where(), "a right text is refused")
    c.total(s, key, "reading the text can panic")
    return Ands([s.ok, pre]), code, data


def reader(c):
    op = opaques(c)
    e = engine.ENG
    for f, at in (("version_check_decode", 0), ("decode_address", 1)):
        text = mk("sym", "text", STR)
        s = c.run(c.fn(C32 + f), [text], subs=(("ref", False, STR),), opaque=op)
        r = reader_check(c, s, text, at, f, False)
        if r is None:
            continue
        G, code, data = r
        vi = version_index(c, s.okval)
        c.same(G, version_code(c, simp(G, e.proj(s.okval, ("f", vi)))), code, f"{f}:version-value", s.where(), "the version is not that of the version character")
        c.same(G, byts(simp(G, e.proj(s.okval, ("f", 1 - vi)))), data, f"{f}:data-value", s.where(), "the data are not the decoded bytes before the checksum")
    text = mk("sym", "text", STR)
    bid, subs = c.method("core::convert::TryFrom", SA, "try_from", (("ref", False, STR),))
    s = c.run(bid, [text], subs=subs, opaque=op)
    r = reader_check(c, s, text, 1, "address", True)
    if r is not None:
        G, code, data = r
        a = simp(G, s.okval)
        ver = c.bytype(a, spec.AVER)
        h = [x for x in range(2) if e.proj(a, ("f", x)) is not ver]
        c.same(G, version_code(c, simp(G, ver)), code, "address:version-value", s.where(), "the version of the address is not that of the version character")
        c.same(G, c.core_of(simp(G, e.proj(a, ("f", h[0])))), data, "address:hash", s.where(), "the hash of the address is not the decoded bytes before the checksum")


def version_index(c, t):
    """which component of a pair is the version"""
    for i in (0, 1):
        if any(x.op == "adt" and x.a[0] == spec.AVER for x in leaves(engine.ENG.proj(t, ("f", i)))):
            return i
    raise Missing("the version among what is decoded")


# ---------------------------------------------------------------- characters
def characters(c):
    bid = c.fn(C32 + "decode")
    w = c.prog.bodies[bid]["span"]
    val = {}
    for i, x in enumerate(ALPHABET):
        val[x] = val[x.lower()] = i
    for x, y in ALIAS.items():
        val[x] = val[x.lower()] = ALPHABET.index(y)
    bad = []
    for o in range(128):
        s = c.run(bid, [S(chr(o))], subs=(("ref", False, STR),))
        want = val.get(chr(o))
        if want is None:
            ok = s.ok is FALSE and s.cur is not FALSE
        else:
            b = short_list(simp(TRUE, s.okval), 4) if s.ok is TRUE else None
            got = None if b is None or any(x.op != "int" for x in b) else [x.a[0] for x in b]
            # a leading zero byte written with the alias O may be dropped (decoding as such is C01)
            ok = got == [want] or got == [] and chr(o) in "oO"
        if not ok:
            bad.append(chr(o))
    c.fact(not bad, "characters", w, f"a character does not have its documented meaning: {bad[:5]}")
    odd = []
    for n in range(256):
        r = c.run(c.fn(C32 + "encode"), [cat([one(I(n))])], subs=(BYTES,))
        want = ("" if n < 32 else ALPHABET[n // 32]) + ALPHABET[n % 32]
        if r.ret is not S(want):
            odd.append(n)
    c.fact(not odd, "digits", c.prog.bodies[c.fn(C32 + "encode")]["span"], f"a byte is not written with its documented digits: {odd[:5]}")
    for k, n in spec.VERSIONS.items():
        c.fact(ALPHABET[n] not in bad, f"characters:{k}", w, "a version character does not decode to its version")


# ---------------------------------------------------------------- principals
def principal(c):
    e = engine.ENG
    cnid = c.fn("stacks_core::contract_name::ContractName::new")
    aid, asubs = c.method("core::convert::TryFrom", SA, "try_from", (("ref", False, STR),))
    bid, subs = c.method("core::convert::TryFrom", PR, "try_from", (STRING,))
    text = mk("sym", "text", STRING)
    s = c.run(bid, [text], subs=subs, opaque=[aid, cnid])
    sp = models.split_of(text, I(ord(".")))
    n = ln(sp)

    def calls(f, t):
        return {x for x in subterms(t) if x.op == "call" and f(x)}
    isa = lambda x: x.a[0].split("::")[-1] == "try_from" and x.a[0].split("::")[-2] in ("TryFrom", "{impl#4}") or x.a[0] == aid
    isc = lambda x: x.a[0].endswith("ContractName::new") or x.a[0] == cnid
    A, N = calls(isa, s.ret), calls(isc, s.ret)
    rest = models.split_rest(text, I(ord(".")), 1)
    two = is_label(n, 2)
    ok, sok, v = s.ok, s.ok, s.okval
    one_ = is_label(n, 1)

    def recall(x, y):
        return mk("call", x.a[0], x.a[1], (y,) + x.a[2][1:])

    def unify(pick, g, whole, part, t):
        """the calls on `whole` as those on `part`, which is the same text when g, and otherwise has a dot
        more than what is called accepts"""
        nonlocal ok, sok, v
        for x in calls(pick, ok) | calls(pick, v):
            u, w = simp(g, x.a[2][0]), simp(Not(g), x.a[2][0])
            if u is not w:
                m = {x: select([(g, recall(x, u)), (Not(g), recall(x, w))])}
                ok, sok, v = (subst(t, m) for t in (ok, sok, v))
        for x in calls(pick, ok) | calls(pick, v):
            if x.a[2][0] is whole:
                ok = And(ok, Or(g, is_label(e.discr(x, ("adt", RES, (t, None))), 1)))
                m = {x: recall(x, part)}
                ok, sok, v = (subst(t, m) for t in (ok, sok, v))
        return calls(pick, ok) | calls(pick, v)
    A = unify(isa, one_, text, nth(sp, ZERO), SA)
    N = unify(isc, two, rest, nth(sp, ONE), ("adt", CNAME, ()))
    c.fact(len(A) == 1 and all(x.a[2][0] is nth(sp, ZERO) for x in A), "principal:address-part", s.where(), "the address is not read from what precedes the first dot")
    c.fact(len(N) == 1 and all(x.a[2][0] is nth(sp, ONE) for x in N), "principal:name-part", s.where(), "the contract name is not read from what follows the dot")
    if len(A) != 1 or len(N) != 1:
        return
    A, N = A.pop(), N.pop()
    ra = ("adt", RES, (SA, None))
    rn = ("adt", RES, (("adt", CNAME, ()), None))
    oka, okn = is_label(e.discr(A, ra), 0), is_label(e.discr(N, rn), 0)
    a, nm = e.payload(A, 0), e.payload(N, 0)
    settype(a, SA)
    vs = spec.variants(c, spec.PRIN)
    more = settype(mk("sym", "#more", ("num", "usize")), ("num", "usize"))
    parts = lambda t, k: norm(subst(t, {n: k}))
    for k, want in ((ZERO, FALSE), (ONE, oka), (I(2), And(oka, okn)), (add(more, I(3)), FALSE)):
        if k is ZERO:
            continue        # a text has one part at least
        num_ = k.a[0] if k.op == "int" else "more"
        c.implies(parts(ok, k), want, f"principal:refuses:{num_}", s.where(), "a text that is not an address, or an address and a contract name around one dot, is accepted")
        c.implies(want, parts(sok, k), f"principal:accepts:{num_}", s.where(), "a right text is refused")
    for g, k, m in ((oka, "Standard", ONE), (And(oka, okn), "Contract", I(2))):
        w = simp(g, parts(v, m))
        good = w.op == "adt" and w.a[0] == spec.PRIN and w.a[1] == vs[k]
        c.fact(good, f"principal:{k}", s.where(), f"the principal is not a {k.lower()} one: {show(w)[:200]}")
        if not good:
            continue
        st = [x for x in w.a[2:] if x.op == "adt" and x.a[0] == SPD]
        c.fact(len(st) == 1 and a in subset(st[0]) and all(x is a or x is c.bytype(a, spec.AVER) for x in st[0].a[2:]), f"principal:{k}:address", s.where(), "the principal's address is not the one in the text")
        if k == "Contract":
            c.fact(any(x is nm for x in w.a[2:]), "principal:Contract:name", s.where(), "the principal's contract name is not the one in the text")
    c.total(s, "principal", "reading a principal can panic")


def subset(t):
    return list(t.a[2:])


PARTS = [writer, reader, characters, principal]
