"""One domain for arrays, vectors, slices, strings, byte streams and lazy iterators."""
from terms import *
import terms


def cat(parts):
    out = []
    for p in parts:
        if p.op == "one":
            out.append(p)
            continue
        s = p.a[0] if p.op == "spr" else p
        if s.op == "cat":
            out += s.a
        elif s.op == "str" and s.a[0] == "":
            pass
        elif s.op == "rep" and s.a[1].op == "int" and s.a[1].a[0] == 0:
            pass
        elif s is BOT:
            return BOT
        else:
            # adjacent slices / string literals
            q = mk("spr", s)
            if out and out[-1].op == "spr":
                l = out[-1].a[0]
                if l.op == "str" and s.op == "str":
                    out[-1] = mk("spr", S(l.a[0] + s.a[0]))
                    continue
                m = join_slices(l, s)
                if m is not None:
                    out[-1] = mk("spr", m)
                    continue
            out.append(q)
    if len(out) == 1 and out[0].op == "spr":
        return out[0].a[0]
    if out and out[0].op == "one" and out[0].a[0].op == "nth" and out[0].a[0].a[1] is ZERO:
        # every element of an array of known length, in order
        x = out[0].a[0].a[0]
        if all(p.op == "one" and p.a[0].op == "nth" and p.a[0].a[0] is x and p.a[0].a[1] is I(i) for i, p in enumerate(out)) and ln(x) is I(len(out)):
            return x
    return mk("cat", *out)


EMPTY = mk("cat")


def join_slices(a, b):
    if b.op == "slice":
        if a.op == "slice" and a.a[0] is b.a[0] and a.a[2] is b.a[1]:
            return slice_(a.a[0], a.a[1], b.a[2])
    return None


def one(x):
    return mk("one", x)


def lst(xs):
    return mk("cat", *[one(x) for x in xs])


def bytes_(b):
    return lst([I(x) for x in b])


BUILD["cat"] = lambda *p: cat([x if x.op in ("one", "spr") else mk("spr", x) for x in p])
BUILD["spr"] = lambda x: mk("spr", x)


def rep(x, n):
    if n.op == "int" and n.a[0] <= 4:
        return lst([x] * max(n.a[0], 0))
    return mk("rep", x, n)


BUILD["rep"] = rep


def plen(p):
    return ONE if p.op == "one" else ln(p.a[0])


def _len(s):
    o = s.op
    if s is BOT:
        return BOT
    if o == "cat":
        r = ZERO
        for p in s.a:
            r = add(r, plen(p))
        return r
    if o == "str":
        return I(len(s.a[0].encode()))
    if o == "rep":
        return s.a[1]
    if o == "slice":
        return sub(s.a[2], s.a[1]) if s.a[2] is not None else sub(ln(s.a[0]), s.a[1])
    if o in ("rev", "asbytes"):
        return ln(s.a[0])
    if o == "chunks":
        n, k = ln(s.a[0]), s.a[1]
        return BUILD["div"](n if s.a[2] else add(n, sub(k, ONE)), k)
    if o == "flat":
        w = flat_width(s)
        if w is not None:
            return mul(s.a[0], w)
    if o == "upd":
        return ln(s.a[0])
    if o == "fold":
        # a state which the loop only overwrites in place
        h, n, body = s.a[2].a
        st = mk("bv", h + 1 + s.a[0])
        if body.op == "adt":
            u = body.a[2 + s.a[0]]
            while u.op == "upd":
                u = u.a[0]
            if u is st:
                return ln(s.a[3][s.a[0]])
    if o == "ibytes":
        return I(s.a[1])
    if o == "utf8":
        return ln(s.a[0])
    if o == "sortk":
        return ln(s.a[1])
    if o == "hex":
        return mul(I(2), ln(s.a[0]))
    if o == "from" or o == "inf":
        return mk("inf")
    if s.id in LENS:
        return LENS[s.id]
    t = tyof(s)
    while t is not None and t[0] == "ref":
        t = t[2]
    if t is not None and t[0] == "array":
        n = t[2]
        if n[0] == "cval":
            return I(n[1])
        if n[0] == "cparam":
            return settype(mk("cp", n[1]), ("num", "usize"))
    if o == "call" and s.a[0].endswith("Hashing::as_bytes") and s.a[2]:
        h = tyof(s.a[2][0])
        while h is not None and h[0] == "ref":
            h = h[2]
        if h is not None and h[0] == "adt" and h[1].endswith("::Hasher") and h[2] and h[2][-1][0] == "cval":
            return I(h[2][-1][1])
    return mk("len", s)


# lengths of sequences changed in place by an opaque call, which cannot resize them
LENS = {}


def flat_width(s):
    """constant number of elements each index contributes, if independent of it"""
    l = s.a[1]
    w = _wid(l.a[2])
    return w


def _wid(b):
    ls = leaves(b)
    ws = set()
    for x in ls:
        if x is BOT:
            continue
        w = ln(x)
        ws.add(w)
    if len(ws) == 1:
        w = ws.pop()
        if not any(y.op == "bv" for y in subterms(w)):
            return w
    return None


def ln(s):
    return apply("len", _len, s)


BUILD["len"] = ln
BUILD["slice"] = lambda s, lo, hi: slice_(s, lo, hi)


def _split(p, n):
    """split spread part p (a sequence) at int n < len"""
    s = p
    if s.op == "rep":
        return rep(s.a[0], n), rep(s.a[0], sub(s.a[1], n))
    if s.op == "str":
        b = s.a[0].encode()
        try:
            return S(b[:n.a[0]].decode()), S(b[n.a[0]:].decode())
        except UnicodeDecodeError:
            pass
    if s.op == "slice":
        lo, hi = s.a[1], s.a[2]
        m = add(lo, n)
        return mk_slice(s.a[0], lo, m), mk_slice(s.a[0], m, hi)
    return mk_slice(s, ZERO, n), mk_slice(s, n, None)


def mk_slice(s, lo, hi):
    if hi is not None and hi is ln(s):
        hi = None
    if lo is ZERO and hi is None:
        return s
    if hi is not None and hi is lo:
        return EMPTY
    if hi is None and lo is ln(s):
        return EMPTY
    r = mk("slice", s, lo, hi)
    t = tyof(s)
    if t is not None:
        while t[0] == "ref":
            t = t[2]
        if t[0] in ("array", "slice"):
            settype(r, ("slice", t[1]))
        elif t[0] == "adt" and t[1] == "alloc::vec::Vec":
            settype(r, ("slice", t[2][0]))
    return r


def _ge(a, b):
    """syntactically certain a >= b"""
    d = sub(a, b)
    return d.op != "g" and nonneg(d) and (d.op != "int" or d.a[0] >= 0)


def drop(s, n):
    if n is ZERO or s is BOT:
        return s
    if s.op == "g":
        return apply(("drop", n), lambda x: drop(x, n), s)
    if s.op == "cat":
        ps = list(s.a)
        while ps:
            if n is ZERO:
                return cat(ps)
            L = plen(ps[0])
            if _ge(n, L):
                n = sub(n, L)
                ps.pop(0)
                continue
            if n.op == "int" and L.op == "int" and ps[0].op == "spr":
                _, b = _split(ps[0].a[0], n)
                return cat([mk("spr", b)] + ps[1:])
            rest = cat(ps)
            return mk_slice(rest, n, None)
        return EMPTY
    if s.op == "slice":
        return slice_(s.a[0], add(s.a[1], n), s.a[2])
    if s.op == "rep":
        return rep(s.a[0], sub(s.a[1], n))
    if s.op == "str" and n.op == "int":
        return _split(s, n)[1]
    return mk_slice(s, n, None)


def take(s, n):
    if s is BOT:
        return s
    if s.op == "g":
        return apply(("take", n), lambda x: take(x, n), s)
    if n is ZERO:
        return EMPTY
    if n is ln(s):
        return s
    if s.op == "cat":
        out = []
        for i, p in enumerate(s.a):
            if n is ZERO:
                return cat(out)
            L = plen(p)
            if _ge(n, L):
                out.append(p)
                n = sub(n, L)
                continue
            if n.op == "int" and L.op == "int" and p.op == "spr":
                a, _ = _split(p.a[0], n)
                return cat(out + [mk("spr", a)])
            return cat(out + [mk("spr", mk_slice(cat(s.a[i:]), ZERO, n))])
        return cat(out)
    if s.op == "slice":
        return slice_(s.a[0], s.a[1], add(s.a[1], n))
    if s.op == "rep":
        return rep(s.a[0], n)
    if s.op == "str" and n.op == "int":
        return _split(s, n)[0]
    return mk_slice(s, ZERO, n)


def slice_(s, lo, hi):
    if s.op == "g":
        return apply(("slice", lo, hi), lambda x: slice_(x, lo, hi), s)
    if s is BOT:
        return BOT
    if s.op == "slice":
        base, l0, h0 = s.a
        return slice_(base, add(l0, lo), add(l0, hi) if hi is not None else h0)
    if s.op == "rev":
        n = ln(s)
        h = n if hi is None else hi
        if n.op == lo.op == h.op == "int" and lo.a[0] <= h.a[0] <= n.a[0]:
            return rev(slice_(s.a[0], sub(n, h), sub(n, lo)))
    if hi is None:
        return drop(s, lo)
    if lo is ZERO:
        return take(s, hi)
    if s.op in ("cat", "rep", "str"):
        t = take(s, hi)
        if t.op == "slice" and t.a[0] is s:
            return mk_slice(s, lo, hi)
        return drop(t, lo)
    return mk_slice(s, lo, hi)


def _nth(s, i):
    if s is BOT or i is BOT:
        return BOT
    if s.op == "cat":
        ps = list(s.a)
        n = i
        while ps:
            if ps[0].op == "one":
                if n is ZERO:
                    return ps[0].a[0]
                if n.op == "int" or _ge(n, ONE):
                    n = sub(n, ONE)
                    ps.pop(0)
                    continue
                return mk("nth", cat(ps), n)
            L = plen(ps[0])
            if _ge(n, L):
                n = sub(n, L)
                ps.pop(0)
                continue
            if n.op == "int" and L.op == "int":
                return nth(ps[0].a[0], n)
            if lt(n, L) is TRUE:
                return nth(ps[0].a[0], n)
            return _nth_t(cat(ps), n)
        return BOT
    if s.op == "slice":
        return nth(s.a[0], add(s.a[1], i))
    if s.op == "rep":
        return s.a[0]
    if s.op == "rev":
        return nth(s.a[0], sub(sub(ln(s.a[0]), ONE), i))
    if s.op == "flat" and flat_width(s) is ONE:
        b = beta(s.a[1], [i])
        return nth(b, ZERO)
    if s.op == "chunks":
        lo, hi, n = mul(s.a[1], i), mul(s.a[1], add(i, ONE)), ln(s.a[0])
        whole = TRUE if s.a[2] or BUILD["rem"](n, s.a[1]) is ZERO else le(hi, n)
        return select([(whole, slice_(s.a[0], lo, hi)), (Not(whole), slice_(s.a[0], lo, None))])
    if s.op == "str" and i.op == "int":
        b = s.a[0].encode()
        return I(b[i.a[0]]) if i.a[0] < len(b) else BOT
    if s.op == "from":
        return add(s.a[0], i)
    if s.op == "upd":
        base, j, x = s.a
        if j is i:
            return x
        e = eq(i, j)
        return select([(e, x), (Not(e), nth(base, i))])
    return _nth_t(s, i)


def elem_type(t):
    while t is not None and t[0] == "ref":
        t = t[2]
    if t is None:
        return None
    if t[0] in ("array", "slice"):
        return t[1]
    if t[0] == "adt" and t[1] == "alloc::vec::Vec":
        return t[2][0]
    return None


def _nth_t(s, i):
    r = mk("nth", s, i)
    et = elem_type(tyof(s))
    if et is not None:
        settype(r, et)
    elif s.op in ("cat", "ibytes"):
        if all(p.op == "one" and (p.a[0].op == "int") for p in s.a if isinstance(p, T)):
            settype(r, ("num", "usize"))
    return r


def nth(s, i):
    return apply("nth", _nth, s, i)


BUILD["nth"] = nth


def rev(s):
    def f(s):
        if s is BOT:
            return BOT
        if s.op == "rev":
            return s.a[0]
        if s.op == "cat" and all(p.op == "one" for p in s.a):
            return mk("cat", *reversed(s.a))
        if s.op == "cat":
            return cat([p if p.op == "one" else mk("spr", rev(p.a[0])) for p in reversed(s.a)])
        if s.op == "rep":
            return s
        if s.op == "ibytes":
            return settype(BUILD["ibytes"]("le" if s.a[0] == "be" else "be", s.a[1], s.a[2]), tyof(s))
        r = mk("rev", s)
        t = tyof(s)
        if t is not None:
            et = elem_type(t)
            if et is not None:
                settype(r, ("slice", et))
        return r
    return apply("rev", f, s)


BUILD["rev"] = rev


def as_list(s, limit=4096):
    """elements of a sequence of known finite length, or None"""
    if s.op == "cat":
        out = []
        for p in s.a:
            if p.op == "one":
                out.append(p.a[0])
            else:
                x = as_list(p.a[0], limit)
                if x is None:
                    return None
                out += x
        return out
    if s.op == "rep" and s.a[1].op == "int" and s.a[1].a[0] <= limit:
        return [s.a[0]] * s.a[1].a[0]
    if s.op == "rev":
        x = as_list(s.a[0], limit)
        return x[::-1] if x is not None else None
    if s.op == "str":
        return [I(c) for c in s.a[0].encode()]
    n = ln(s)
    if n.op == "int" and n.a[0] <= 32 and s.op not in ("call",):
        return [nth(s, I(i)) for i in range(n.a[0])]
    return None


def short_list(s, limit=64):
    """finite and written out element by element (worth unrolling)"""
    if s.op == "cat" and all(p.op == "one" for p in s.a) and len(s.a) <= limit:
        return [p.a[0] for p in s.a]
    if s.op == "rev":
        x = short_list(s.a[0], limit)
        return x[::-1] if x is not None else None
    return None


def put(s, i, x):
    """s with element i replaced"""
    def f(s, i):
        if s is BOT or i is BOT:
            return BOT
        if i.op == "int":
            l = as_list(s, 256) if s.op in ("cat", "rep", "str") else None
            if l is not None and i.a[0] < len(l):
                l = list(l)
                l[i.a[0]] = x
                return lst(l)
            if s.op == "cat":
                n = i.a[0]
                ps = list(s.a)
                for j, p in enumerate(ps):
                    if p.op == "one":
                        if n == 0:
                            return cat(ps[:j] + [one(x)] + ps[j + 1:])
                        n -= 1
                    else:
                        l = plen(p)
                        if l.op != "int":
                            break
                        if n < l.a[0]:
                            q = p.a[0]
                            return cat(ps[:j] + [mk("spr", slice_(q, ZERO, I(n))), one(x), mk("spr", slice_(q, I(n + 1), None))] + ps[j + 1:])
                        n -= l.a[0]
        if s.op == "upd" and s.a[1] is i:
            return upd(s.a[0], i, x)
        return upd(s, i, x)
    return apply(None, f, s, i)


def upd(s, i, x):
    r = mk("upd", s, i, x)
    t = tyof(s)
    if t is not None:
        settype(r, t)
    return r


BUILD["upd"] = lambda s, i, x: put(s, i, x)


def flat(n, lm):
    """concatenation over k in 0..n of lm(k)"""
    if n is ZERO:
        return EMPTY
    h, _, b = lm.a
    k = mk("bv", h)
    # identity:  one(nth(s,k)) over len(s)
    if b.op == "cat" and len(b.a) == 1 and b.a[0].op == "one":
        e = b.a[0].a[0]
        if e.op == "nth" and e.a[1] is k and not has(e.a[0], k) and ln(e.a[0]) is n:
            return e.a[0]
        if e.op == "nth" and not has(e.a[0], k):
            # affine index k + c : a slice
            d = sub(e.a[1], k)
            if d.op != "g" and not has(d, k):
                return slice_(e.a[0], d, add(d, n))
            d = add(e.a[1], k)
            if d.op != "g" and not has(d, k):
                # descending: nth(s, d-k), k<n : rev(s[d+1-n .. d+1])
                return rev(slice_(e.a[0], sub(add(d, ONE), n), add(d, ONE)))
        if not has(e, k):
            return rep(e, n)
    if n.op == "int" and n.a[0] <= 16:
        return cat([mk("spr", beta(lm, [I(i)])) for i in range(n.a[0])])
    if b is EMPTY:
        return EMPTY
    if n.op == "len" and n.a[0].op == "flat":
        r = fuse(n.a[0], k, b)
        if r is not None:
            return r
    return mk("flat", n, lm)


def fuse(inner, k, b):
    """what is made of each element of a filtered sequence is made where the element is chosen"""
    x = nth(inner, k)
    if not has(b, x) or has(subst(b, {x: mk("sym", "fused", None)}), k):
        return None

    def go(s):
        if s.op == "g":
            return mk("g", s.a[0], tuple((l, go(y)) for l, y in s.a[1]), go(s.a[2]) if s.a[2] is not None else None)
        if s is BOT or s is EMPTY:
            return s
        if s.op == "cat" and len(s.a) == 1 and s.a[0].op == "one":
            return subst(b, {x: s.a[0].a[0]})
        raise LookupError
    j = mk("sym", "fusedk", ("num", "usize"))
    try:
        return flat(inner.a[0], lam([j], go(beta(inner.a[1], [j]))))
    except LookupError:
        return None


BUILD["flat"] = flat


def eq_cat(a, b):
    la, lb = ln(a), ln(b)
    if la.op == "int" and lb.op == "int" and la is not lb:
        return FALSE
    xa, xb = as_list(a), as_list(b)
    if xa is not None and xb is not None:
        if len(xa) != len(xb):
            return FALSE
        r = TRUE
        for x, y in zip(xa, xb):
            r = And(r, eq(x, y))
        return r
    # strip common prefix
    pa, pb = list(a.a), list(b.a)
    if pa and pb and pa[0] is pb[0]:
        while pa and pb and pa[0] is pb[0]:
            pa.pop(0)
            pb.pop(0)
        return eq(cat(pa), cat(pb))
    return None


def seq_lt_fact(k, s):
    return lt(k, ln(s))
