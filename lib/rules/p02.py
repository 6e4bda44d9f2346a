"""Abstract interpretation of every wire codec: the writer is analysed on an arbitrary value and
yields the exact byte layout as a term; the reader is then analysed on that layout, followed by
arbitrary further bytes, and has to yield the value again (field by field), accept, and leave
exactly the further bytes unread. The layouts of the documented formats are compared with an
independent statement of them."""
from fw import *
import spec

LEVEL = "other"
RULE = "for every implementation of the codec trait: reader(writer(x) ++ rest) = (x, rest), no case of x is refused, writing never fails; writer(x) = documented layout"
ASSUME = ["a contract name was made by its constructor (P08)", "the version of a standard principal is that of its address",
          "secp256k1: from_compact/serialize_compact and from_i32/to_i32 are inverse, recovery ids are 0..3", "Script::from(bytes) keeps the bytes",
          "signet and regtest share magic bytes, so the reader may return either of them"]


def implementors(c):
    ims = [i for i in c.prog.by_trait.get(spec.CODEC, []) if "codec_serialize" in i["items"]]
    if len(ims) < 10:
        raise Missing("implementations of the codec trait")
    return ims


def name_of(t):
    return t[1] if t[0] in ("adt", "num") else str(t)


def write(c, im, n=4):
    b = im["items"]["codec_serialize"]
    subs = (VECU8,) if c.prog.bodies[b]["ngen"] == 1 else (("cval", n), VECU8)
    return c.run(b, [None, ("mut", EMPTY)], subs=subs, names={0: "x"})


def canon(c, t):
    """networks that share magic bytes are the same on the wire"""
    np = spec.net_path(c)
    vs = spec.variants(c, np)
    m = {}
    for a, i in vs.items():
        for b, j in vs.items():
            if j < i and spec.MAGIC[a] == spec.MAGIC[b]:
                m[adt(np, i)] = adt(np, j)
    return norm(subst(t, m))


def valid(c, x):
    """what the constructors of the parts of x guarantee"""
    g = TRUE
    for y in subterms(x):
        if y.op == "adt" and y.a[0] == CNAME:
            s = c.run(c.fn(CNAME + "::new"), [y.a[2]])
            g = And(g, s.ok)
    return g


def roundtrip(c):
    np = spec.net_path(c)
    for im in implementors(c):
        t = im["self"]
        nm = name_of(t)
        sizes = (4,) if c.prog.bodies[im["items"]["codec_serialize"]]["ngen"] == 1 else ((1, 2, 4, 8, 16) if c.tier == "thorough" else (4, 8))
        for n in sizes:
            key = nm if sizes == (4,) else f"{nm}<{n}>"
            w = write(c, im, n)
            tt = tsub(t, (("cval", n),))
            X = eta(c.prog, w.args[0], tt)
            A = valid(c, X)
            wok = simp(A, w.ok)
            c.implies(A, w.ok, f"{key}:writes", w.where(), "writing a value into memory fails or panics in some case")
            W = simp(And(A, w.ok), w.cell(1))
            rest = mk("sym", "rest", BYTES)
            b = im["items"]["codec_deserialize"]
            subs = (BYTES,) if c.prog.bodies[b]["ngen"] == 1 else (("cval", n), BYTES)
            whole = name_of(t).endswith("::Script")
            if whole:
                rest = EMPTY
            src = apply(None, lambda y: cat([mk("spr", y), mk("spr", rest)]), flatten(W))
            r = c.run(b, [("mut", simp(A, src))], subs=subs)
            c.implies(A, r.ok, f"{key}:accepted", r.where(), "the reader refuses (or panics on) bytes the writer produced")
            G = And(A, r.ok)
            c.same(TRUE, canon(c, simp(G, r.okval)), canon(c, simp(G, X)), f"{key}:value", r.where(), "the reader does not give back the value that was written")
            left = simp(G, r.cell(0))
            c.same(G, left, rest, f"{key}:consumed", r.where(), "the reader does not consume exactly the bytes that were written")


def layout(c):
    e = engine.ENG
    want = {}
    S_ = spec

    def sig(x):
        calls = [y for y in subterms(x) if y.op == "call" and y.a[0].endswith("RecoverableSignature::serialize_compact")]
        return calls

    for im in implementors(c):
        t = im["self"]
        nm = name_of(t)
        w = write(c, im)
        x = w.args[0]
        W = norm(simp(w.ok, w.cell(1)))
        exp = None
        if nm == S_.ADDR:
            exp = S_.address(c, x)
        elif nm == S_.PRIN:
            exp = S_.principal(c, x)
        elif nm.endswith("::util::amount::Amount") or nm == "u64":
            exp = S_.be(8, x)
        elif nm == S_.BLOCKID or nm == S_.UINT:
            exp = S_.limbs(c, x)
        elif nm.endswith("::ContractName"):
            s = c.core_of(x)
            exp = cat([one(e.intcast(ln(s), "usize", "u8")), mk("spr", models.asbytes(s))])
        elif nm.endswith("::Opcode"):
            exp = cat([one(e.discr(x, t))])
        elif nm.endswith("::RecoverableSignature"):
            exp = sig_layout(c, x)
        elif nm.endswith("op_return::deposit::DepositOutputData"):
            exp = cat([mk("spr", S_.magic(c, c.bytype(x, S_.net_path(c)))), one(I(60)), mk("spr", S_.principal(c, c.bytype(x, S_.PRIN)))])
        elif nm.endswith("ParsedWithdrawalFulfillmentData"):
            exp = cat([mk("spr", S_.magic(c, c.bytype(x, S_.net_path(c)))), one(I(33)), mk("spr", S_.limbs(c, c.bytype(x, S_.BLOCKID)))])
        elif nm.endswith("WithdrawalRequestDataOutputData"):
            exp = cat([mk("spr", S_.magic(c, c.bytype(x, S_.net_path(c)))), one(I(62)), mk("spr", S_.be(8, c.bytype(x, ("num", "u64")))), mk("spr", sig_layout(c, c.bytype(x, rsig_path(c))))])
        elif nm.endswith("commit_reveal::deposit::DepositData"):
            exp = cat([one(I(60)), mk("spr", S_.principal(c, c.bytype(x, S_.PRIN))), mk("spr", S_.be(8, c.bytype(x, amount_path(c))))])
        elif nm.endswith("commit_reveal::withdrawal_request::WithdrawalData"):
            am = [i for i, f in enumerate(c.prog.adts[t[1]]["v"][0]["f"]) if unref(c.prog.field_type(t, 0, i)) == ("adt", amount_path(c), ())]
            sg = c.bytype(x, rsig_path(c))
            am = [e.proj(x, ("f", i)) for i in am]
            if len(am) != 2:
                raise Missing("the amount and fee of a commit reveal withdrawal")
            exp = cat([one(I(62)), mk("spr", S_.be(8, c.fld(x, "amount"))), mk("spr", sig_layout(c, sg)), mk("spr", S_.be(8, c.fld(x, "reveal_fee")))])
        if exp is None:
            continue
        want[nm] = 1
        A = valid(c, eta(c.prog, x, tsub(t, (("cval", 4),))))
        exp = flatten(norm(exp))
        c.same(And(A, w.ok), flatten(W), exp, f"{nm}:layout", w.where(), "the bytes written differ from the documented layout")
    c.fact(len(want) >= 13, "layout:coverage", "-", f"only {len(want)} of the documented wire formats were found")


def flatten(t):
    """pull the cases of guarded parts of a byte string to the front"""
    def f(s):
        if s.op == "cat":
            r = EMPTY
            for p in s.a:
                if p.op == "spr" and p.a[0].op == "g":
                    r = apply(None, lambda a, b: cat([mk("spr", a), mk("spr", b)]), r, p.a[0])
                else:
                    r = apply(None, lambda a: cat([mk("spr", a), p]), r)
            return r
        return s
    return apply(None, f, t)


def amount_path(c):
    return spec.adtpath(c, "bitcoin::util::amount::Amount")


def rsig_path(c):
    return spec.RSIG


def sig_layout(c, s):
    e = engine.ENG
    im = [i for i in implementors(c) if name_of(i["self"]).endswith("::RecoverableSignature")]
    if len(im) != 1:
        raise Missing("codec of the recoverable signature")
    sc = mk("call", "secp256k1::ecdsa::recovery::RecoverableSignature::serialize_compact", None, (s,))
    rid = mk("call", "secp256k1::ecdsa::recovery::RecoveryId::to_i32", None, (mk("fld", sc, 0),))
    settype(rid, ("num", "i32"))
    return cat([one(rid), mk("spr", settype(mk("fld", sc, 1), ("array", ("num", "u8"), ("cval", 64))))])


def tables(c):
    for path, tab in ((spec.AVER, spec.VERSIONS), (spec.adtpath(c, "sbtc_core::operations::Opcode"), spec.OPCODES)):
        vs = spec.variants(c, path)
        for n, d in tab.items():
            ok = n in vs and c.prog.variant_discr(path, vs[n]) == d
            c.fact(ok, f"{path}::{n}", path, f"the byte of {n} is not {d}")
        c.fact(set(vs) == set(tab), f"{path}:complete", path, f"the variants are {sorted(vs)}")


PARTS = [roundtrip, layout, tables]
