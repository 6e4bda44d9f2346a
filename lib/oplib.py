"""What the on-chain operations of sBTC look like, stated over the terms of the analysis."""
from fw import *
import spec

PARSERS = {
    "deposit": ("sbtc_core::operations::op_return::deposit::Deposit::parse", 60),
    "withdrawal request": ("sbtc_core::operations::op_return::withdrawal_request::try_parse_withdrawal_request", 62),
}


class Parse:
    """one parser analysed on an arbitrary network and transaction"""

    def __init__(self, c, kind):
        name, self.opcode = PARSERS[kind]
        self.c, self.kind = c, kind
        bid = c.fn(name)
        b = c.prog.bodies[bid]
        tys = [unref(c.prog.ltypes(b)[i + 1]) for i in range(b["args"])]
        self.neti = [i for i, t in enumerate(tys) if t and t[0] == "adt" and t[1] == spec.net_path(c)]
        self.txi = [i for i, t in enumerate(tys) if t and t[0] == "adt" and t[1].endswith("::Transaction")]
        if len(self.neti) != 1 or len(self.txi) != 1:
            raise Missing(f"{name} over a network and a transaction")
        s = self.s = c.run(bid, names={self.neti[0]: "network", self.txi[0]: "tx"})
        self.net, self.tx = s.args[self.neti[0]], s.args[self.txi[0]]
        e = self.e = engine.ENG
        self.outs = c.fld(self.tx, "output")
        settype(self.outs, tyof(self.outs) or c.prog.field_type(tyof(self.tx), 0, c.prog.field_index(tyof(self.tx)[1], "output")))
        self.txout = spec.adtpath(c, "bitcoin::blockdata::transaction::TxOut")
        s0 = self.script(0)
        cands = [t for t in subterms(s.ret) if t.op == "call" and t.a[0].endswith("Script::instructions") or t.op == "call" and t.a[0].endswith("Script::instructions_minimal")]
        cands = [t for t in set(cands) if t.a[2][0] is s0]
        if len(cands) != 1:
            raise Missing(f"reading the instructions of the first output's script in {name}")
        self.ins = cands[0]
        ip = spec.adtpath(c, "blockdata::script::Instruction")
        vs = {v["n"]: i for i, v in enumerate(c.prog.adts[ip]["v"])}
        rt = ("adt", RES, (("adt", ip, ()), None))
        i0, i1 = nth(self.ins, ZERO), nth(self.ins, ONE)
        d0, d1 = e.discr(i0, rt), e.discr(i1, rt)
        p0, p1 = e.payload(i0, 0), e.payload(i1, 0)
        it = ("adt", ip, ())
        self.g_out = lt(ZERO, ln(self.outs))
        code = c.fld(mkas_(e, p0, vs["Op"], ip), 0)
        code = e.proj(code, ("f", 0))
        self.g_ret = And(lt(ZERO, ln(self.ins)), And(is_label(d0, 0), And(is_label(e.discr(p0, it), vs["Op"]), eq(code, I(spec.OP_RETURN)))))
        self.g_push = And(lt(ONE, ln(self.ins)), And(is_label(d1, 0), is_label(e.discr(p1, it), vs["PushBytes"])))
        self.d = e.proj(mkas_(e, p1, vs["PushBytes"], ip), ("f", 0))
        settype(self.d, BYTES)
        m = spec.magic(c, self.net)
        self.g_len = lt(I(2), ln(self.d))
        self.g_magic = And(eq(nth(self.d, ZERO), nth(m, ZERO)), eq(nth(self.d, ONE), nth(m, ONE)))
        self.g_opcode = eq(nth(self.d, I(2)), I(self.opcode))

    def txout_(self, i):
        o = nth(self.outs, I(i))
        if not tyof(o):
            settype(o, ("adt", self.txout_path(), ()))
        return o

    def txout_path(self):
        return spec.adtpath(self.c, "bitcoin::blockdata::transaction::TxOut")

    def script(self, i):
        return self.c.fld(self.txout_(i), "script_pubkey")

    def value(self, i):
        return self.c.fld(self.txout_(i), "value")

    def has_out(self, i):
        return lt(I(i), ln(self.outs))

    def address(self, i):
        """(is an address, the address) of output i on the network"""
        sc = self.script(i)
        cands = {t for t in subterms(self.s.ret) if t.op == "call" and t.a[0].endswith("Address::from_script") and t.a[2][0] is sc}
        c = self.c
        for t in cands:
            if simp(self.s.ok, t.a[2][1]) is simp(self.s.ok, self.net):
                g = is_label(self.e.discr(t, ("adt", RES, (None, None))), 0)
                return g, self.e.payload(t, 0)
        raise Missing(f"the address paid by output {i} in {self.s.where()}")

    def decode(self, lo, selft, G):
        """(accepted, value) of the codec of a type on the pushed bytes from lo on"""
        c = self.c
        src = slice_(self.d, I(lo), None)
        bid, _ = c.impl(spec.CODEC, selft, "codec_deserialize")
        r = c.run(bid, [("mut", src)], subs=(BYTES,))
        return r.ok, r.okval


def mkas_(e, p, v, path):
    r = e.proj(p, ("v", v))
    return r
