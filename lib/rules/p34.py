"""Path table of the published proof check, and an inductive reading of the folded Merkle step: one symbolic step from a
symbolic hash, whose result must be the documented next hash, accepted only on the last step and only if it is the root."""
from fw import *
from contracts import *
import contracts

SCOPE = None
BASE = contracts.BASE
LEVEL = "other"
RULE = "ok only where the header's double SHA-256, reversed, equals the burn chain's header hash at the height given and the Merkle fold from the reversed txid, over all the proof's hashes in order and with the bits of the index, is verified against bytes 36..68 of the header; the step's table is the documented one; the converse paths exist"
ASSUME = ["SHA-256 is collision resistant; the burn chain is what Clarity reports", "proofs have at most 14 hashes (the declared type)"]

HEIGHT, TXID, HEADER, PROOF = ("arg", 0), ("arg", 1, 32), ("arg", 2, 80), ("arg", 3)
HASHES, INDEX = ("get", "hashes", PROOF), ("get", "tx-index", PROOF)
ROOT = ("slice", HEADER, 36, 68)
BURN = ("burn-info", "header-hash", HEIGHT)
N = ("len", HASHES)


def folds(t):
    if isinstance(t, tuple):
        if t and t[0] == "fold" and len(t) == 4:
            yield t
            return
        for x in t:
            yield from folds(x)


def accepts(c):
    import p30
    for path in p30.verifiers(c):
        decides(c, path, contract(c, path), BURN)


def decides(c, path, con, BURN):
    """the proof check of a contract accepts exactly the documented proofs, BURN being where the header's hash comes from"""
    HDR = eq(("rev", ("sha256", ("sha256", HEADER))), ("val", BURN))
    need(con, "was-txid-mined", "read-only", 4)
    w = where(con, "was-txid-mined")
    t = table(c, con, "was-txid-mined")
    good = [p for p in t if committed(p)]
    c.fact(bool(good), f"{path}:can", w, "no proof is ever accepted")
    seen = set()
    for p in good:
        c.fact(p.val == ("ok", TRUE), f"{path}:result", w, f"an accepted proof returns {shown(p.val)}")
        c.fact(("some?", BURN) in p.lits and HDR in p.lits, f"{path}:header", w, f"a proof is accepted although its header does not hash to the burn chain's header at the height given: {shown(p.lits, 600)}")
        v = verdict(p)
        c.fact(v is not None, f"{path}:merkle", w, f"a proof is accepted without a verified Merkle path: {shown(p.lits, 600)}")
        if v:
            seen.add(v)
            extra = [l for l in p.lits if l not in (("some?", BURN), HDR, v) and not structural(l)]
            c.fact(not extra, f"{path}:only", w, f"a proof is accepted only under a further condition: {shown(extra)}")
    for p in t:
        if p.kind == "panic":
            c.fact(any(l[0] == "not" and structural(l) for l in p.lits), f"{path}:panic", w, f"a well formed proof is refused by a panic: {shown(p.lits)}")
    for v in seen:
        merkle(c, path, con, v)


def structural(l):
    """a literal that always holds: the slice of the index list that is as long as the proof"""
    l = l[1] if l[0] == "not" else l
    return l[0] == "some?" and l[1][0] == "slice?" and l[1][2] == ZERO and l[1][3] == N and l[1][1][0] == "list"


def verdict(p):
    vs = [l for l in p.lits if l[0] == "get" and l[2][0] == "fold"]
    return vs[0] if len(vs) == 1 else None


def merkle(c, path, con, v):
    field, (_, step, lst, init) = v[1], v[2]
    w = f"{con.path}:{con.fns[step].line if step in con.fns else '?'} {step}"
    if step not in con.fns or len(con.fns[step].params) != 2:
        raise Missing("the folded Merkle step")
    # numbered by as much of 0..13 as the proof is long, or by all of it: steps past the end decide nothing (below)
    numbers = lst[1][1] if lst[0] == "val" and structural(("some?", lst[1])) else lst
    ok = numbers == ("list",) + tuple(("num", i) for i in range(14))
    c.fact(ok, f"{path}:steps", w, f"the steps are not numbered from 0 to the number of hashes, up to the 14 a proof can have: {shown(lst, 300)}")
    c.fact(init[0] == "tup", f"{path}:init", w, "the walk does not start from a plain record")
    d = dict(init[1])
    cur = [k for k, x in d.items() if x == ("rev", TXID)]
    c.fact(d.get(field) == FALSE, f"{path}:starts-unverified", w, "the walk starts as verified")
    c.fact(len(cur) == 1, f"{path}:starts", w, f"the walk does not start from the reversed transaction id: {shown(init, 400)}")
    if len(cur) != 1 or field not in d:
        return
    cur = cur[0]
    I, CUR, VER = ("arg", 0), ("sized", "CUR", 32), ("sym", "VERIFIED")
    st = ("tup", tuple(sorted({**d, cur: CUR, field: VER}.items())))
    e = Eval(con, callee_kind(c))
    inrange = lt(I, N)
    elem = ("element", HASHES, I)
    E = ("val", elem)
    last = eq(add(I, ("num", 1)), N)
    cases = {}
    for s, k, val in e.fn(step, [I, st]):
        for s, k, val in expand(e, s, k, val, field):
            lits = s.lits
            if k == "p":
                # index in range but no element: cannot happen
                c.fact(("not", ("some?", elem)) in lits or decide(lits, inrange) is False, f"{path}:step-panic", w, f"a step panics: {shown(lits, 400)}")
                continue
            f = lambda name: e.field(val, name)
            for name, x in d.items():
                if name not in (cur, field):
                    c.fact(f(name) == x, f"{path}:keeps:{name}", w, f"a step changes {name}")
            ver = f(field)
            if decide(lits, VER) is True:
                c.fact(ver in (TRUE, VER), f"{path}:stays", w, "a verified walk does not stay verified")
                continue
            if decide(lits, inrange) is False or ("not", ("some?", elem)) in lits:
                c.fact(ver in (FALSE, VER), f"{path}:beyond", w, "a walk past the end of the proof is accepted")
                continue
            bits = bitof(lits, I)
            c.fact(bits is not None, f"{path}:side", w, f"a step does not take the side of the hash from its bit of the transaction's index: {shown(lits, 500)}")
            if bits is None:
                continue
            nxt = ("sha256", ("sha256", concat(E, CUR) if bits else concat(CUR, E)))
            done = eq(nxt, ROOT)
            c.fact(("some?", elem) in lits, f"{path}:element", w, "a step does not use the hash of its own number")
            if ver == TRUE:
                c.fact(decide(lits, last) is True, f"{path}:last", w, f"a walk is accepted before all the hashes of the proof are used: {shown(lits, 500)}")
                c.fact(done in lits, f"{path}:root", w, f"a walk is accepted although it does not end in the header's Merkle root: {shown(lits, 600)}")
                cases[bits] = True
            else:
                c.fact(ver in (FALSE, VER), f"{path}:verdict", w, f"the verdict of a step is {shown(ver)}")
                c.fact(decide(lits, last) is False or neg(done) in lits, f"{path}:refused", w, f"a walk that ends in the header's Merkle root is refused: {shown(lits, 600)}")
                c.fact(f(cur) == nxt or decide(lits, last) is True, f"{path}:next", w, f"a step goes on from {shown(f(cur), 300)}")
    c.fact(set(cases) == {True, False}, f"{path}:both-sides", w, "a walk cannot end on both sides")


def expand(e, s, k, val, field):
    if k == "p":
        return [(s, k, val)]
    x = e.field(val, field)
    if x in (TRUE, FALSE) or x[0] == "sym":
        return [(s, k, val)]
    out = []
    for s2, b in e.branch(s, x):
        out.append((s2, k, ("merge", val, ((field, ("b", b)),))))
    return out


def bitof(lits, I):
    for l in lits:
        p = l[1] if l[0] == "not" else l
        if p[0] == "zero" and p[1][0] == "bit" and p[1][2] == I:
            x = p[1][1]
            if x in (INDEX, add(INDEX, ("pow", ("num", 2), N))):
                return l[0] == "not"
    return None


PARTS = [accepts]
