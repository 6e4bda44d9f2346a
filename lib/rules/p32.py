"""Abstract interpretation of every wire reader on arbitrary bytes: whatever value it accepts is handed
to the writer, whose output has to be, part by part, exactly the bytes the reader consumed."""
from fw import *
import spec
import p02

LEVEL = "other"
RULE = "for every implementation of the codec trait and all bytes s: reader(s) = (x, rest) implies writer(x) ++ rest = s; no value is accepted from fewer bytes than it is written with"
ASSUME = ["secp256k1: from_compact/serialize_compact and from_i32/to_i32 are inverse, recovery ids are 0..3", "Script::from(bytes) keeps the bytes", "signet and regtest share magic bytes"]


def walk(c, G, W, s, left, key, where):
    """W is s up to where left begins"""
    W = norm(simp(G, W))
    at = ZERO
    for p in (W.a if W.op == "cat" else [mk("spr", W)]):
        if p.op == "one":
            ok = holds(G, lt(at, ln(s)), eq(p.a[0], nth(s, at)))
            if not ok:
                return f"the byte written at {show(at)} is not the one read there: {show(p.a[0])[:200]}"
            at = add(at, ONE)
            continue
        q = p.a[0]
        n = ln(q)
        if not (q is slice_(s, at, add(at, n)) or holds(G, eq(q, slice_(s, at, add(at, n)))) or q.op == "slice" and q.a[0] is s and holds(G, eq(q.a[1], at))):
            b = elems(q)
            if b is None or not all(holds(G, eq(x, nth(s, add(at, I(i))))) for i, x in enumerate(b)):
                return f"what is written from {show(at)} on is not what was read there: {show(q)[:300]}"
        at = add(at, n)
    if norm(simp(G, slice_(s, at, None))) is norm(simp(G, left)):
        return None
    if left.op == "slice" and left.a[0] is s and left.a[2] is None and holds(G, eq(left.a[1], at)):
        return None
    if holds(G, eq(ln(left), sub(ln(s), at))) and suffix(left, s):
        return None
    return f"{show(at)} bytes are written for what was read, but what is left of the input is {show(left)[:300]}"


def suffix(t, s):
    return t is s or t is EMPTY or t.op == "slice" and t.a[2] is None and suffix(t.a[0], s)


def elems(q):
    n = ln(q)
    return [nth(q, I(i)) for i in range(n.a[0])] if n.op == "int" and n.a[0] <= 8 else None


def holds(G, *hs):
    for h in hs:
        x = And(G, Not(h))
        if not (x is FALSE or num.refute(x)):
            return False
    return True


def canonical(c):
    for im in p02.implementors(c):
        t = im["self"]
        nm = p02.name_of(t)
        gen = c.prog.bodies[im["items"]["codec_deserialize"]]["ngen"] != 1
        sizes = (4,) if not gen else ((1, 2, 4, 8, 16) if c.tier == "thorough" else (4, 8))
        for n in sizes:
            key = nm if not gen else f"{nm}<{n}>"
            s = mk("sym", "bytes", BYTES)
            subs = (BYTES,) if not gen else (("cval", n), BYTES)
            r = c.run(im["items"]["codec_deserialize"], [("mut", s)], subs=subs)
            if r.ok is FALSE:
                c.fact(False, f"{key}:accepts", r.where(), "the reader accepts nothing")
                continue
            b = im["items"]["codec_serialize"]
            w = c.run(b, [simp(r.ok, r.okval), ("mut", EMPTY)], subs=(VECU8,) if not gen else (("cval", n), VECU8))
            c.implies(r.ok, w.ok, f"{key}:rewritten", w.where(), "a value that was read cannot be written")
            G = And(r.ok, w.ok)
            W = p02.flatten(norm(simp(G, w.cell(1))))
            bad = None
            for g, x in cases2(W):
                g = And(G, g)
                if g is FALSE or num.refute(g):
                    continue
                for h, left in cases2(simp(g, r.cell(0))):
                    h = And(g, h)
                    if h is FALSE or num.refute(h):
                        continue
                    bad = bad or walk(c, h, x, s, left, key, r.where())
            c.fact(bad is None, f"{key}:canonical", r.where(), f"bytes are accepted that are not the encoding of the value read from them\n      {bad}")


def cases2(t):
    from terms import paths
    out = []
    for ls, x in paths(t, 600):
        g = TRUE
        for v, l in ls:
            g = And(g, lit(v, l) if l is not None else TRUE)
        out.append((g, x))
    return out


PARTS = [canonical]
