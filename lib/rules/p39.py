"""The Merkle tree of a block and the path of a transaction in it. The loop that builds the tree is decided by
induction over its rows: its summary is a `while` term over a state (rows so far, last row, its length); it is put
through a first row, a generic row of an odd or even number of pairs, and the row of one pair."""
from fw import *
from rio import *
import seqs

SCOPE = "romeo"
LEVEL = "other"
RULE = "rows are the leaves, then hashes of neighbouring pairs, odd rows (but the root) with the last entry doubled, until one hash is left; the path is the neighbour's hash of each row but the last, from the leaves up"
ASSUME = ["the double SHA-256 function itself (its arguments and its use are checked)", "a row of 2n entries or more fits in memory"]

TREE = "romeo::proof_data::BitcoinMerkleTree"


def method(c, name):
    return [b for b in c.prog.bodies if b.startswith("romeo::proof_data::{impl#") and b.split("::")[-1] == name and "BitcoinMerkleTree" in str(c.prog.bodies[b].get("sig", "")) or b == TREE + "::" + name] or \
        [b for b in c.prog.bodies if b.startswith("romeo::proof_data::{impl#") and b.split("::")[-1] == name]


def usize(n):
    return mk("sym", n, ("num", "usize"))


def seq(name, n, ty):
    """a list of that many entries"""
    s = mk("sym", name, ("adt", "alloc::vec::Vec", (ty,)))
    seqs.LENS[s.id] = n
    return s


H32 = ("array", ("num", "u8"), ("cval", 32))
ROW = ("adt", "alloc::vec::Vec", (H32,))


def hashes(t):
    return {x for x in subterms(t) if x.op == "call" and x.a[0].endswith("Hashing::as_bytes") and is_call(x.a[2][0], "hash")}


def hasher(c, t, w):
    """the function of two entries used for a row above, as a constructor"""
    hs = hashes(t)
    c.fact(bool(hs), "hash", w, f"the rows above the leaves are hashes ({len(hs)} places)")
    h = next(iter(sorted(hs, key=lambda x: x.id)), None)
    if h is None:
        return None
    kinds = {str(tyof(x.a[2][0])) for x in hs}
    c.fact(len(kinds) == 1 and "DoubleSha256Hashing" in kinds.pop(), "double", w, f"every one of them is a double SHA-256: {sorted({str(tyof(x.a[2][0]))[:90] for x in hs})}")
    f = h.a[2][0]
    return lambda a, b: mk("call", h.a[0], h.a[1], (settype(mk("call", f.a[0], f.a[1], (cat([mk("spr", a), mk("spr", b)]),)), tyof(f)),))


def pairs(H, row, n):
    k = usize("pair")
    i = mul(I(2), k)
    return flat(n, lam([k], lst([H(nth(row, i), nth(row, add(i, ONE)))])))


def padded(row, n_odd):
    """row, its last entry doubled if its number is odd"""
    return cat([mk("spr", row), one(nth(row, sub(ln(row), ONE)))]) if n_odd else row


def shown(t):
    return show(t)[:260]


def making(c):
    bs = method(c, "new")
    c.fact(len(bs) == 1, "new", "-", f"{len(bs)} functions make the tree")
    for b in bs:
        j = usize("j")
        for what, n in (("one", ONE), ("odd", add(mul(I(2), j), I(3))), ("even", add(mul(I(2), j), I(2)))):
            leaves = mk("sym", "leaves" + what, ("ref", False, ("slice", H32)))
            seqs.LENS[leaves.id] = n
            s = c.run(b, args=[leaves])
            w = s.where()
            data = c.fld(s.ret, "data")
            row0 = padded(leaves, what != "even")
            ws = {x for x in subterms(data) if x.op == "while"}
            loops = {(x.a[1], x.a[2]) for x in ws}
            if what == "one" and not loops:
                H = hasher(c, data, w)
                c.fact(H is not None and data is cat([one(row0), one(pairs(H, row0, ONE))]), "single", w, f"the tree of one transaction is it, doubled, and the hash of the two: {shown(data)}")
                continue
            if c.fact(len(loops) == 1, f"loop:{what}", w, f"the rows are built in one loop ({len(loops)}): {shown(data)}"):
                build(c, what, w, data, ws, *next(iter(loops)), row0)
        empty = c.run(b, args=[cat([])])
        c.fact(c.fld(empty.ret, "data") is cat([]), "empty", empty.where(), f"no transactions, no rows: {shown(empty.ret)}")


def build(c, what, w, data, ws, body, inits, row0):
    H = hasher(c, data, w)
    if H is None:
        return
    roles = []
    for x in inits:
        if x is cat([]):
            roles.append("below")
        elif x is cat([one(row0)]):
            roles.append("rows")
        elif x is row0:
            roles.append("row")
        elif x is ln(row0):
            roles.append("len")
        else:
            roles.append(None)
    ok = None not in roles and ("rows" in roles or {"below", "row"} <= set(roles))
    if not c.fact(ok, f"first:{what}", w, f"the first row is the leaves, in order, the last doubled if their number is odd: {[shown(x) for x in inits]}"):
        return
    below = mk("sym", "below" + what, ("adt", "alloc::vec::Vec", (ROW,)))

    def state(row, lower):
        put = {"below": cat([mk("spr", x) if x is below else one(x) for x in lower]), "rows": cat([mk("spr", x) if x is below else one(x) for x in lower + [row]]), "row": row, "len": ln(row)}
        return [put[r] for r in roles]
    k = usize("k")
    single = mk("sym", "top" + what, ROW)
    seqs.LENS[single.id] = ONE
    top = beta(body, state(single, [below])).a[2:]
    stops_at_two = None
    for case, n in (("pair", ONE), ("even", add(mul(I(2), k), I(2))), ("odd", add(mul(I(2), k), I(3)))):
        row = seq("row" + what + case, mul(I(2), n), H32)
        out = beta(body, state(row, [below])).a[2:]
        cond, nxt = out[0], list(out[1:])
        above = pairs(H, row, n)
        if case == "odd":
            above = padded(above, True)
        if case == "pair":
            stops_at_two = cond is FALSE
            if stops_at_two:
                fin = [state(row, [below])[i] for i in range(len(roles))]
                got = subst(data, {x: fin[x.a[0]] for x in ws})
                want = cat([mk("spr", below), one(row), one(above)])
                c.fact(got is want, f"root:{what}", w, f"the last row is the hash of the pair below it, and nothing is changed at the end: {shown(got)}")
                continue
            c.fact(top[0] is FALSE, f"stop:{what}", w, f"no row is built above one of a single hash: {shown(top[0])}")
            fin = state(single, [below])
            got = subst(data, {x: fin[x.a[0]] for x in ws})
            c.fact(got is cat([mk("spr", below), one(single)]), f"root:{what}", w, f"the rows built are the tree: {shown(got)}")
        c.fact(cond is TRUE, f"go-on:{what}:{case}", w, f"a row is built above one of {'one pair' if case == 'pair' else 'more pairs'}: {shown(cond)}")
        want = state(above, [below, row])
        for i, r in enumerate(roles):
            c.fact(nxt[i] is want[i], f"row:{what}:{case}:{r}", w, f"above a row of an {case} number of pairs are their hashes{', the last doubled' if case == 'odd' else ''}: {shown(nxt[i])}")


def path(c):
    bs = method(c, "proof")
    c.fact(len(bs) == 1, "proof", "-", f"{len(bs)} functions give a path")
    for b in bs:
        e = usize("e")
        data = mk("sym", "tree", ("adt", "alloc::vec::Vec", (ROW,)))
        seqs.LENS[data.id] = add(e, ONE)
        n = mk("sym", "index", ("num", "usize"))
        s = c.run(b, args=[adt(TREE, 0, data), n])
        w = s.where()
        within = lt(n, ln(nth(data, ZERO)))
        none, some = simp(Not(within), s.ret), simp(within, s.ret)
        c.fact(none.op == "adt" and none.a[1] == 0, "outside", w, f"no path for an index past the leaves: {shown(none)}")
        if not c.fact(some.op == "adt" and some.a[1] == 1 and len(some.a) == 3, "inside", w, f"a path for every index of a leaf: {shown(some)}"):
            continue
        f = some.a[2]
        if not c.fact(f.op == "fold" and f.a[1] is e, "levels", w, f"the path has one entry for each row but the last: {shown(f)}"):
            continue
        comp, _, body, inits = f.a
        want0 = {n: "index", cat([]): "path"}
        roles = [want0.get(x) for x in inits]
        if not c.fact(None not in roles and roles[comp] == "path" and "index" in roles, "start", w, f"it starts empty, at the index asked for: {[shown(x) for x in inits]}"):
            continue
        k, j = usize("k"), usize("j")
        sofar = mk("sym", "sofar", ROW)
        row = nth(data, k)
        for case, at, sib in (("left", mul(I(2), j), add(mul(I(2), j), ONE)), ("right", add(mul(I(2), j), ONE), mul(I(2), j))):
            st = {"index": at, "path": sofar}
            out = beta(body, [k] + [st[r] for r in roles])
            out = list(out.a[2:]) if out.op == "adt" and out.a[0] == "()" else [out]
            want = {"index": j, "path": cat([mk("spr", sofar), one(nth(row, sib))])}
            for i, r in enumerate(roles):
                c.fact(out[i] is want[r], f"{case}:{r}", w, (f"the {case} entry of a pair is proven with the other one of its own row" if r == "path" else "it goes on with the pair's place in the row above") + f": {shown(out[i])}")
        none = c.run(b, args=[adt(TREE, 0, cat([])), n]).ret
        c.fact(none.op == "adt" and none.a[1] == 0, "empty-path", w, f"no path in an empty tree: {shown(none)}")


def built(c):
    """nobody else makes or changes a tree"""
    made = set()
    for b in c.prog.bodies:
        if not b.startswith("romeo::") or "::tests::" in b:
            continue
        for blk in c.prog.bodies[b]["blocks"]:
            for st in blk["s"]:
                if st[0] == "assign" and "agg" in str(st[2][0]) and TREE in str(st[2])[:400]:
                    made.add(b)
    c.fact({b.split("::")[-1] for b in made} <= {"new"} and made, "maker", "-", f"trees are made by `new` only: {sorted(made)}")


PARTS = [making, path, built]
