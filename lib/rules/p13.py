"""Abstract interpretation of the commit-reveal constructors. The commit address and the revealing
transaction are terms; the script tree under each is read off the taproot builder's chain and compared with
the documented pair of scripts over the operation's own encoding, and the two with each other."""
from fw import *
import spec

LEVEL = "other"
RULE = "commit address = pay to taproot of the unspendable internal key and exactly {data DROP revealer CHECKSIG, reclaim CHECKSIG}; reveal spends the commit output by that very script with its control block, and pays as documented"
ASSUME = ["the taproot functions of the bitcoin crate do what they document (a tree of two leaves of depth 1 does not depend on their order)"]

M_ = "sbtc_core::operations::commit_reveal::"
NUMS = bytes.fromhex("50929b74c1a04954b78b4b6035e97a5e078a5a0f28ec96d547bfee9ace803ac0")
DROP, CHECKSIG, RETURN = 117, 172, 106


def is_call(t, *names):
    return t.op == "call" and any(t.a[0].endswith("::" + n) for n in names)


def okof(t, *names):
    """the call whose success value t is"""
    if t.op == "fld" and t.a[1] == 0 and t.a[0].op == "as" and t.a[0].a[1] == 0 and is_call(t.a[0].a[0], *names):
        return t.a[0].a[0]
    return None


def key(k):
    return mk("call", "secp256k1::key::XOnlyPublicKey::serialize", None, (k,))


def op(n):
    return mk("adt", "SOP", 0, I(n))


def push(d):
    return mk("adt", "SPUSH", 0, d)


def reveal_script(data, k):
    return mk("script", lst([push(data), op(DROP), push(key(k)), op(CHECKSIG)]))


def reclaim_script(k):
    return mk("script", lst([push(key(k)), op(CHECKSIG)]))


def tree(c, t):
    """(leaves, internal key) of a finished taproot tree"""
    f = okof(t, "TaprootBuilder::finalize")
    if f is None:
        return None
    b, k = f.a[2][0], f.a[2][2]
    leaves_ = []
    while not is_call(b, "TaprootBuilder::new", "Default::default"):
        a = okof(b, "TaprootBuilder::add_leaf", "TaprootBuilder::add_leaf_with_ver")
        if a is None:
            return None
        if is_call(a, "TaprootBuilder::add_leaf_with_ver") and not tapscript(c, a.a[2][3]):
            return None
        leaves_.append((a.a[2][1], a.a[2][2]))
        b = a.a[2][0]
    return leaves_, k


def tapscript(c, v):
    p = spec.adtpath(c, "bitcoin::util::taproot::LeafVersion", "taproot::LeafVersion")
    return v.op == "adt" and v.a[0] == p and v.a[1] == spec.variants(c, p)["TapScript"]


def tree_check(c, s, t, data, rk, ck, k):
    w = s.where()
    r = tree(c, t)
    if not c.fact(r is not None, f"{k}:tree", w, f"the script tree cannot be read off: {show(t)[:200]}"):
        return False
    ls, ik = r
    n = okof(ik, "XOnlyPublicKey::from_slice")
    c.fact(n is not None and n.a[2][0] is bytes_(NUMS), f"{k}:internal-key", w, "the internal key is not the one nobody has the private key of")
    got = {(d, norm(x)) for d, x in ls}
    want = {(ONE, norm(reveal_script(data, rk))), (ONE, norm(reclaim_script(ck)))}
    c.fact(len(ls) == 2 and got == want, f"{k}:scripts", w, "the scripts committed to are not `data DROP revealer CHECKSIG` and `reclaim CHECKSIG`: " + "; ".join(show(x)[:300] for _, x in ls))
    return True


def inner(t):
    while t.op == "adt" and len(t.a) == 3:
        t = t.a[2]
    return t


def library_ok(s):
    """s.ok and the result when every call of the library it asks succeeds"""
    m = {}
    for t in set(subterms(s.ok)) | set(subterms(gate(s.cur, s.ret))):
        if t.op == "discr" and t.a[0].op == "call" and not t.a[0].a[0].startswith(("sbtc_core", "stacks_core")):
            nm = t.a[0].a[0]
            m[t] = I(1) if nm.endswith("::control_block") else I(0)
    return m


def accept(c, s, k, pre=TRUE):
    m = library_ok(s)
    c.implies(pre, subst(s.ok, m), f"{k}:accepts", s.where(), "arguments the library accepts are refused")
    bad = []
    for o in s.obl:
        g = subst(o.guard, m)
        if g is FALSE or num.refute(And(g, pre)):
            continue
        bad.append(o)
    return bad


def commit_check(c, s, data, rk, ck, k):
    v = s.okval
    if not c.fact(is_call(v, "Address::p2tr"), f"{k}:taproot", s.where(), f"the commit address is not a pay to taproot address: {show(v)[:200]}"):
        return
    a = v.a[2]
    r = a[2]
    if not c.fact(is_call(r, "TaprootSpendInfo::merkle_root"), f"{k}:root", s.where(), "the address does not commit to the root of the script tree"):
        return
    t = r.a[2][0]
    f = okof(t, "TaprootBuilder::finalize")
    c.fact(is_call(a[1], "TaprootSpendInfo::internal_key") and a[1].a[2][0] is t or f is not None and a[1] is f.a[2][2], f"{k}:key", s.where(), "the key of the address is not the internal key of the script tree")
    tree_check(c, s, t, data, rk, ck, k)
    for o in accept(c, s, k):
        c.fact(False, f"{k}:panic:{o.name}", o.site, f"{o.name} can fail here")


def reveal_check(c, s, ri, data, pays, k, pre=TRUE):
    """ri: reveal inputs; pays: [(value, script)] after the marker"""
    e = engine.ENG
    w = s.where()
    f = lambda n: c.fld(ri, n)
    out, mg, rk, ck = f("commit_output"), f("stacks_magic_bytes"), f("revealer_key"), f("reclaim_key")
    tx = s.okval
    script = reveal_script(data, rk)
    ins = short_list(c.fld(tx, "input"), 4)
    if not c.fact(ins is not None and len(ins) == 1, f"{k}:inputs", w, "the transaction does not have exactly one input"):
        return
    c.fact(c.fld(ins[0], "previous_output") is out, f"{k}:spends", w, "the input does not spend the commit output")
    c.fact(c.fld(ins[0], "script_sig") is mk("script", EMPTY), f"{k}:script-sig", w, "the input has a signature script, which a taproot spend must not have")
    lock = inner(c.fld(tx, "lock_time"))
    c.fact(lock is ZERO or inner(c.fld(ins[0], "sequence")) is I(0xffffffff), f"{k}:final", w, "the transaction is not final")
    c.fact(lock is ZERO, f"{k}:lock-time", w, "the transaction is locked")
    q = inner(c.fld(ins[0], "sequence"))
    q = q.a[0] if q.op == "int" else None
    c.fact(q is not None and (q >> 31 & 1 or q & 0xffff == 0), f"{k}:relative-lock", w, "the input has to wait for its commit output to age")
    wit = c.fld(ins[0], "witness")
    items = short_list(wit.a[2], 6) if wit.op == "adt" and wit.a[0] == "WITNESS" else None
    if c.fact(items is not None and len(items) == 2, f"{k}:witness", w, "the witness is not the script and its control block"):
        c.same(s.cur, items[0], mk("call", "bitcoin::blockdata::script::Script::as_bytes", None, (script,)), f"{k}:witness-script", w, "the script revealed is not `data DROP revealer CHECKSIG`")
        cb = items[1]
        g = cb.a[2][0] if is_call(cb, "ControlBlock::serialize") else None
        g = g.a[0].a[0] if g is not None and g.op == "fld" and g.a[0].op == "as" and is_call(g.a[0].a[0], "TaprootSpendInfo::control_block") else None
        if c.fact(g is not None, f"{k}:control-block", w, "the second witness item is not a control block of the script tree"):
            t, sv = g.a[2]
            c.fact(norm(e.proj(sv, ("f", 0))) is norm(script) and tapscript(c, e.proj(sv, ("f", 1))), f"{k}:control-block-script", w, "the control block is not that of the script revealed")
            tree_check(c, s, t, data, rk, ck, k)
    outs = short_list(c.fld(tx, "output"), 8)
    if c.fact(outs is not None and len(outs) == 1 + len(pays), f"{k}:outputs", w, f"the transaction does not have {1 + len(pays)} outputs"):
        marker = mk("script", lst([op(RETURN), push(cat([mk("spr", mg), one(I(ord("w")))]))]))
        for i, (val, sc, what) in enumerate([(ZERO, marker, "marker")] + pays):
            o = outs[i]
            c.same(s.cur, c.core_of(c.fld(o, "value")), val, f"{k}:output-{i}:value", w, f"the value of output {i} is not that of the {what}")
            c.same(s.cur, c.fld(o, "script_pubkey"), sc, f"{k}:output-{i}:script", w, f"output {i} does not pay to the {what}")
    for o in accept(c, s, k, pre):
        c.fact(False, f"{k}:panic:{o.name}", o.site, f"{o.name} can fail here: {show(subst(o.guard, library_ok(s)))[:300]}")


def arg(s, i):
    if i >= len(s.args):
        raise Missing(f"argument {i} of {s.where()}")
    return s.args[i]


def generic(c):
    s = c.run(c.fn(M_ + "utils::commit"))
    commit_check(c, s, arg(s, 0), arg(s, 1), arg(s, 2), "commit")
    s = c.run(c.fn(M_ + "utils::reveal"))
    reveal_check(c, s, arg(s, 1), arg(s, 0), [], "reveal")


def encoding(c, x):
    r = c.call(spec.CODEC, unref(tyof(x)), "codec_serialize", [x, ("mut", EMPTY)], extra=(VECU8,))
    return r.cell(1)


def pay(a):
    return mk("call", "bitcoin::util::address::Address::script_pubkey", None, (a,))


def operations(c):
    for m, f in (("deposit", "deposit"), ("withdrawal_request", "withdrawal_request")):
        k = f"{m}:commit"
        s = c.run(c.fn(M_ + f"{m}::{f}_commit_address"))
        commit_check(c, s, encoding(c, arg(s, 0)), arg(s, 1), arg(s, 2), k)
        k = f"{m}:reveal"
        s = c.run(c.fn(M_ + f"{m}::{f}_reveal_unsigned_tx"))
        d = arg(s, 0)
        fee = c.core_of(c.fld(d, "reveal_fee"))
        if m == "deposit":
            amount, sbtc = c.core_of(arg(s, 2)), arg(s, 3)
            rest = sub(amount, fee)
            pays = [(rest, pay(sbtc), "sBTC wallet")]
            pre = le(fee, amount)
        else:
            ff, amount, sbtc, who = c.core_of(arg(s, 2)), c.core_of(arg(s, 3)), arg(s, 4), arg(s, 5)
            rest = sub(sub(amount, fee), ff)
            pays = [(rest, pay(who), "payee"), (ff, pay(sbtc), "sBTC wallet")]
            pre = le(add(fee, ff), amount)
        reveal_check(c, s, arg(s, 1), encoding(c, d), pays, k, pre)


PARTS = [generic, operations]
