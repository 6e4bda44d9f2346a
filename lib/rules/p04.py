"""Abstract interpretation of the withdrawal request parser and of the signer: the drawee is
expressed as a term over the transaction and compared with the address of the key recovered from
the request's own signature over the message made of the request's own amount and payee; the
message that is verified, the message that is signed and the documented message are the same term."""
from oplib import *

LEVEL = "other"
RULE = "drawee = single-signature address (version of the network) of recover(message(amount, payee), signature), all three from the same transaction; signing and recovering use the same message; message = documented layout"
ASSUME = ["ECDSA recovery and SHA-256/RIPEMD-160 are what their libraries say", "Display of an address and of an integer is injective"]

WR = "sbtc_core::operations::op_return::withdrawal_request::"
PREFIX = b"Stacks Signed Message:\n"


def message(c, amount, addr):
    """the documented message as a term"""
    e = engine.ENG
    sc = settype(mk("call", "bitcoin::util::address::Address::script_pubkey", None, (addr,)), ("adt", spec.adtpath(c, "bitcoin::blockdata::script::Script"), ()))
    sb = settype(mk("call", "bitcoin::blockdata::script::Script::as_bytes", None, (sc,)), BYTES)
    enc = mk("hex", cat([mk("spr", spec.be(8, amount)), mk("spr", sb)]))
    settype(enc, STRING)
    D = cat([mk("spr", bytes_(b"Withdraw request for ")), mk("spr", disp(amount)), mk("spr", bytes_(b" satoshis to the bitcoin address ")),
             mk("spr", disp(addr)), mk("spr", bytes_(b" (")), mk("spr", models.asbytes(enc)), mk("spr", bytes_(b")"))])
    return signed(c, D)


def disp(x):
    return models.asbytes(settype(mk("disp", x), STRING))


def signed(c, D):
    e = engine.ENG
    b = cat([one(I(len(PREFIX))), mk("spr", bytes_(PREFIX)), one(e.intcast(ln(D), "usize", "u8")), mk("spr", D)])
    return mk("msg", hash256(b))


def hash256(b):
    import models2
    return models2.hash_("sha256", b)


def hash160(b):
    import models2
    return models2.hash_("ripemd160", hash256(b))


def p2pkh(c, version, pk):
    """the fields a single signature address of pk has: (version discriminant, hash)"""
    return hash160(settype(mk("call", "secp256k1::key::PublicKey::serialize", None, (pk,)), ("array", U8, ("cval", 33))))


def calls(t, suffix):
    return sorted({x for x in subterms(t) if x.op == "call" and x.a[0].endswith(suffix)})


def drawee(c):
    p = Parse(c, "withdrawal request")
    s, v, G, w = p.s, p.s.okval, p.s.ok, p.s.where()
    e = engine.ENG
    dr = c.bytype(v, spec.ADDR)
    ver = c.bytype(dr, spec.AVER)
    hi = [i for i in range(2) if c.prog.field_type(("adt", spec.ADDR, ()), 0, i) != ("adt", spec.AVER, ())]
    h = c.core_of(e.proj(dr, ("f", hi[0])))
    recs = calls(simp(G, h), "::recover_ecdsa")
    if not c.fact(len(recs) == 1, "drawee:recovered", w, f"the drawee's address is not that of one recovered key ({len(recs)} recoveries)"):
        return
    rec = recs[0]
    pk = e.payload(rec, 0)
    c.implies(G, is_label(e.discr(rec, ("adt", RES, (None, None))), 0), "drawee:recovery-succeeds", w, "a request whose signature recovers no key is accepted")
    c.same(G, h, p2pkh(c, None, pk), "drawee:hash", w, "the drawee is not the hash of the recovered public key")
    amount, payee, sig = c.fld(v, "amount"), c.fld(v, "payee_bitcoin_address"), c.bytype(v, spec.RSIG)
    c.same(G, rec.a[2][1], message(c, amount, payee), "drawee:message", w, "the key is not recovered over the message of this request's amount and payee")
    c.same(G, rec.a[2][2], sig, "drawee:signature", w, "the key is not recovered from this request's signature")
    vs = spec.variants(c, spec.net_path(c))
    np = spec.net_path(c)
    want = case_on(e.discr(p.net, ("adt", np, ())), {c.prog.variant_discr(np, i): I(spec.VERSIONS["MainnetSingleSig" if n == "Bitcoin" else "TestnetSingleSig"]) for n, i in vs.items()})
    c.same(G, e.discr(ver, ("adt", spec.AVER, ())), want, "drawee:version", w, "the drawee's address version is not the single signature one of the network")


def byrole(c, bid, roles):
    b = c.prog.bodies[bid]
    out = {}
    for i in range(b["args"]):
        t = unref(c.prog.ltypes(b)[i + 1])
        for r, f in roles.items():
            if f(t):
                if r in out:
                    raise Missing(f"distinct {r} parameter of {b['name']}")
                out[r] = i
    if set(out) != set(roles):
        raise Missing(f"parameters {sorted(set(roles) - set(out))} of {b['name']}")
    return out


def isadt(suffix):
    return lambda t: t is not None and t[0] == "adt" and t[1].endswith(suffix)


U64 = lambda t: t == ("num", "u64")


def signer(c):
    bid = c.fn(WR + "create_signature")
    r = byrole(c, bid, {"key": isadt("::SecretKey"), "payee": isadt("::Address"), "amount": U64})
    s = c.run(bid)
    w = s.where()
    c.fact(s.cur is TRUE or num.refute(Not(s.cur)), "signer:total", w, "signing panics in some case")
    a = {k: s.args[i] for k, i in r.items()}
    sg = s.ret
    ok = sg.op == "call" and sg.a[0].endswith("::sign_ecdsa_recoverable")
    if not c.fact(ok, "signer:recoverable", w, f"the signature is not a recoverable one made directly by the library: {show(sg)[:200]}"):
        return
    c.same(s.cur, sg.a[2][1], message(c, a["amount"], a["payee"]), "signer:message", w, "what is signed is not the message of the amount and the payee")
    c.same(s.cur, sg.a[2][2], a["key"], "signer:key", w, "the request is not signed with the drawee's key")
    # the recovery function used by the parser agrees with the signer
    bid = c.fn(WR + "recover_signature")
    r2 = byrole(c, bid, {"sig": isadt("::RecoverableSignature"), "payee": isadt("::Address"), "amount": U64})
    s2 = c.run(bid)
    b = {k: s2.args[i] for k, i in r2.items()}
    rec = calls(s2.okval, "::recover_ecdsa")
    if c.fact(len(rec) == 1 and simp(s2.ok, s2.okval) is simp(s2.ok, engine.ENG.payload(rec[0], 0)), "recover:key", s2.where(), "the key returned is not the recovered one"):
        c.same(s2.ok, rec[0].a[2][1], message(c, b["amount"], b["payee"]), "recover:message", s2.where(), "the signature is not checked over the message of the amount and the payee")
        c.same(s2.ok, rec[0].a[2][2], b["sig"], "recover:signature", s2.where(), "the key is not recovered from the signature given")


def request(c):
    """the data of a request carries the signature over its own amount and payee"""
    path = spec.adtpath(c, "withdrawal_request::WithdrawalRequestDataOutputData")
    bid = c.fn(path + "::new")
    r = byrole(c, bid, {"key": isadt("::SecretKey"), "payee": isadt("::Address"), "amount": U64, "net": isadt("::Network")})
    s = c.run(bid)
    a = {k: s.args[i] for k, i in r.items()}
    sg = c.bytype(s.ret, spec.RSIG)
    w = s.where()
    if c.fact(sg.op == "call" and sg.a[0].endswith("::sign_ecdsa_recoverable"), "request:signature", w, "the data of a request does not carry a fresh signature"):
        c.same(s.cur, sg.a[2][1], message(c, a["amount"], a["payee"]), "request:message", w, "the signature in a request is not over its amount and payee")
        c.same(s.cur, sg.a[2][2], a["key"], "request:key", w, "a request is not signed with the drawee's key")
    c.same(s.cur, c.bytype(s.ret, ("num", "u64")), a["amount"], "request:amount", w, "the amount in a request is not the one asked for")
    c.same(s.cur, c.bytype(s.ret, spec.net_path(c)), a["net"], "request:network", w, "the network in a request is not the one asked for")


PARTS = [drawee, signer, request]
