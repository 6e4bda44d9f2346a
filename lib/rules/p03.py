"""Abstract interpretation of the parsers of on-chain operations on an arbitrary network and
transaction. Acceptance is compared, as a boolean function over the parts of the transaction,
with the documented conditions: first output = OP_RETURN followed by a data push that starts with
the magic bytes of that network and the opcode of that operation."""
from oplib import *

LEVEL = "other"
RULE = "parse(network, tx) = Ok  =>  first output is OP_RETURN <magic(network) opcode ...>;  the documented conditions  =>  parse(network, tx) = Ok"
ASSUME = ["Script::instructions and Address::from_script behave as documented by the bitcoin crate", "signet and regtest share magic bytes by specification"]


def recognised(c):
    for kind in PARSERS:
        try:
            p = Parse(c, kind)
        except Missing as m:
            c.fact(False, f"anchor:{kind}", "-", f"an anchor of this rule is gone from the tree: {m}")
            continue
        s, w = p.s, p.s.where()
        k = kind.replace(" ", "-")
        c.implies(s.ok, p.g_out, f"{k}:output", w, "a transaction without outputs is recognised")
        c.implies(s.ok, p.g_ret, f"{k}:op-return", w, "a transaction is recognised although its first output does not start with OP_RETURN")
        c.implies(s.ok, p.g_push, f"{k}:push", w, "a transaction is recognised although OP_RETURN is not followed by a data push")
        c.implies(s.ok, p.g_len, f"{k}:len", w, "a transaction is recognised although its data has no opcode")
        c.implies(s.ok, p.g_magic, f"{k}:magic", w, "a transaction is recognised although its magic bytes are not those of the network")
        c.implies(s.ok, p.g_opcode, f"{k}:opcode", w, f"a transaction is recognised although its opcode is not {chr(p.opcode)!r}")
        head = And(p.g_out, And(p.g_ret, And(p.g_push, And(p.g_len, And(p.g_magic, p.g_opcode)))))
        full = And(head, complete(c, p))
        c.fact(full is not FALSE and s.ok is not FALSE, f"{k}:possible", w, "no transaction at all is recognised")
        c.implies(full, s.ok, f"{k}:complete", w, "a well formed operation is not recognised")


def complete(c, p):
    if p.kind == "deposit":
        g, _ = p.decode(3, ("adt", spec.PRIN, ()), TRUE)
        a1, _ = p.address(1)
        return And(g, And(p.has_out(1), a1))
    g, _ = p.decode(3, ("num", "u64"), TRUE)
    h, _ = p.decode(11, ("adt", spec.RSIG, ()), TRUE)
    a1, _ = p.address(1)
    a2, _ = p.address(2)
    r = And(And(g, h), And(And(p.has_out(1), p.has_out(2)), And(a1, a2)))
    for t in set(subterms(p.s.cur)) | set(subterms(p.s.ret)):
        if t.op == "discr" and t.a[0].op == "call" and t.a[0].a[0].endswith("::recover_ecdsa"):
            r = And(r, is_label(t, 0))
    return r


def readers(c):
    """the payload decoders accept only their own opcode and one of the networks' magic bytes"""
    want = {"op_return::deposit::DepositOutputData": 60, "withdrawal_request::WithdrawalRequestDataOutputData": 62, "withdrawal_fulfillment::ParsedWithdrawalFulfillmentData": 33}
    for n, op in want.items():
        path = spec.adtpath(c, n)
        bid, _ = c.impl(spec.CODEC, ("adt", path, ()), "codec_deserialize")
        d = mk("sym", "data", BYTES)
        s = c.run(bid, [("mut", d)], subs=(BYTES,))
        w = s.where()
        k = path.split("::")[-1]
        c.implies(s.ok, lt(I(2), ln(d)), f"{k}:len", w, "data without an opcode is accepted")
        c.implies(s.ok, eq(nth(d, I(2)), I(op)), f"{k}:opcode", w, f"data whose opcode is not {chr(op)!r} is accepted")
        m = FALSE
        for v in set(spec.MAGIC.values()):
            m = Or(m, And(eq(nth(d, ZERO), I(v[0])), eq(nth(d, ONE), I(v[1]))))
        c.implies(s.ok, m, f"{k}:magic", w, "data with unknown magic bytes is accepted")
        net = c.bytype(s.okval, spec.net_path(c))
        mg = spec.magic(c, net)
        c.implies(s.ok, And(eq(nth(d, ZERO), nth(mg, ZERO)), eq(nth(d, ONE), nth(mg, ONE))), f"{k}:network", w, "the network reported is not the one of the magic bytes")


PARTS = [recognised, readers]
