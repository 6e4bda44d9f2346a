"""Domain of linear inequalities over the integer valued parts of terms: decides whether a
guard can hold for any values (sound: 'empty' is never said of a guard that can hold)."""
from math import gcd
from terms import *
import terms
import seqs
import engine
import iv

LIMIT = 260


def tighten(c, ts):
    g = 0
    for k in ts.values():
        g = gcd(g, abs(k))
    if g > 1:
        # sum + c <= 0  ->  sum/g <= floor(-c/g)
        return -((-c) // g), {t: k // g for t, k in ts.items()}
    return c, ts


def norm_c(c, ts):
    ts = {t: k for t, k in ts.items() if k}
    return tighten(c, ts)


def key(cc):
    c, ts = cc
    return (tuple(sorted((t.id, k) for t, k in ts.items())))


def empty(cons):
    """cons: [(c, {atom: k})] each meaning c + sum k*atom <= 0; True if certainly unsatisfiable"""
    best = {}
    atoms = {}

    def put(best, cc):
        c, ts = norm_c(*cc)
        if not ts:
            return c > 0
        k = key((c, ts))
        o = best.get(k)
        if o is None or o[0] < c:
            best[k] = (c, ts)
        return False
    for cc in cons:
        if put(best, cc):
            return True
    while best:
        # contradictory pair / choose the variable with least growth
        pos, neg = {}, {}
        for c, ts in best.values():
            for t, k in ts.items():
                (pos if k > 0 else neg).setdefault(t, []).append((c, ts))
        vs = set(pos) | set(neg)
        if not vs:
            return False
        v = min(vs, key=lambda t: (len(pos.get(t, ())) * len(neg.get(t, ())), t.id))
        P, N = pos.get(v, []), neg.get(v, [])
        rest = {}
        for k, (c, ts) in best.items():
            if v not in ts:
                rest[k] = (c, ts)
        if len(rest) + len(P) * len(N) > LIMIT:
            P, N = P[:12], N[:12]
        for c1, t1 in P:
            for c2, t2 in N:
                a, b = -t2[v], t1[v]
                ts = {}
                for t, k in t1.items():
                    ts[t] = ts.get(t, 0) + k * a
                for t, k in t2.items():
                    ts[t] = ts.get(t, 0) + k * b
                ts.pop(v, None)
                if put(rest, (c1 * a + c2 * b, ts)):
                    return True
        best = rest
    return False


def le0(t):
    """t <= 0"""
    c, ts = lin_parts(t)
    return (c, dict(ts))


def numeric(t):
    if t.op in ("int", "lin", "len", "k", "first", "mul", "div", "rem", "cast", "cp"):
        return True
    ty = tyof(t)
    while ty is not None and ty[0] == "ref":
        ty = ty[2]
    return ty is not None and ty[0] in ("num", "char")


EXTRA = []


def facts_of(t, seen, out):
    """inequalities that always hold between the parts of an atom"""
    if t in seen:
        return
    seen.add(t)
    for f in EXTRA:
        for cc in f(t):
            out.append(cc)
            for x in cc[1]:
                facts_of(x, seen, out)
    r = iv.range_of(t) if t.op not in ("lin",) else None
    if r is not None:
        if r[0] is not None:
            out.append((r[0], {t: -1}))
        if r[1] is not None:
            out.append((-r[1], {t: 1}))
    if (r is None or r[0] is None) and nonneg(t):
        out.append((0, {t: -1}))
    if t.op == "div" and t.a[1].op == "int" and t.a[1].a[0] > 0 and nonneg(t.a[0]):
        q = t.a[1].a[0]
        c, ts = lin_parts(t.a[0])
        d = {x: -k for x, k in ts.items()}
        d[t] = d.get(t, 0) + q
        out.append((-c, d))            # q*t - a <= 0
        d2 = dict(ts)
        d2[t] = d2.get(t, 0) - q
        out.append((c - (q - 1), d2))  # a - q*t - (q-1) <= 0
        for x in ts:
            facts_of(x, seen, out)
        out.append((0, {t: -1}))
    if t.op == "rem" and t.a[1].op == "int" and t.a[1].a[0] > 0:
        out.append((-(t.a[1].a[0] - 1), {t: 1}))
        if nonneg(t.a[0]):
            out.append((0, {t: -1}))
            c, ts = lin_parts(t.a[0])
            d = {x: -k for x, k in ts.items()}
            d[t] = d.get(t, 0) + 1
            out.append((-c, d))        # r <= a
            for x in ts:
                facts_of(x, seen, out)
    if t.op == "first":
        c, ts = lin_parts(t.a[0])
        d = {x: -k for x, k in ts.items()}
        d[t] = d.get(t, 0) + 1
        out.append((1 - c, d))         # first < n (used only where one exists)
        out.append((0, {t: -1}))
        for x in ts:
            facts_of(x, seen, out)


def lits_cons(v, l):
    """constraints of var v having label l (None: no information)"""
    if l is None:
        return []
    if v.op == "lt":
        a, b = v.a
        d = sub(a, b)
        if d.op == "g":
            return []
        if l in (1, True):
            c, ts = lin_parts(d)
            return [(c + 1, dict(ts))]
        c, ts = lin_parts(d)
        return [(-c, {t: -k for t, k in ts.items()})]
    if v.op == "eq" and l in (1, True) and numeric(v.a[0]) and numeric(v.a[1]):
        d = sub(v.a[0], v.a[1])
        if d.op == "g":
            return []
        c, ts = lin_parts(d)
        return [(c, dict(ts)), (-c, {t: -k for t, k in ts.items()})]
    if isinstance(l, int) and not isinstance(l, bool) and v.op not in ("eq", "b", "discr", "exists") and numeric(v):
        c, ts = lin_parts(v)
        return [(c - l, dict(ts)), (l - c, {t: -k for t, k in ts.items()})]
    return []


def not_labels(v, ls):
    """var has none of the labels"""
    if v.op in ("b", "discr", "eq", "exists", "lt", "nt") or not numeric(v) or len(ls) != 1:
        return [[]]
    l = ls[0]
    if isinstance(l, bool) or not isinstance(l, int):
        return [[]]
    c, ts = lin_parts(v)
    return [[(c - l + 1, dict(ts))], [(l + 1 - c, {t: -k for t, k in ts.items()})]]


def lits_alts(v, l):
    """the ways (lists of constraints) in which var can have the label"""
    if v.op == "b" and v.a[0].op == "ovf" if v.op == "b" and isinstance(v.a[0], T) else False:
        tn, x = v.a[0].a
        d = terms.INTR.get(tn)
        if d is None or x.op == "g":
            return [[]]
        c, ts = lin_parts(x)
        ts = dict(ts)
        neg = {t: -k for t, k in ts.items()}
        below, above = (c - d[0] + 1, ts), (d[1] + 1 - c, neg)
        if l in (1, True):
            return [[below], [above]]
        return [[(d[0] - c, neg), (c - d[1], ts)]]
    return [lits_cons(v, l)]


def is_bool_fact(v):
    return v.op == "b" and isinstance(v.a[0], T) and v.a[0].op in BOOLS


BOOLS = {"ascii", "charboundary", "isutf8"}


def bool_conflict(bl, cons):
    """contradictions between facts about strings"""
    pos = [v for v, l in bl if l in (1, True)]
    neg = [v for v, l in bl if l not in (1, True)]
    asc = [v.a[0].a[0] for v in pos if v.op == "b" and v.a[0].op == "ascii"]
    for v in neg:
        if v.op != "b":
            continue
        x = v.a[0]
        if x.op == "charboundary":
            s, i = x.a
            if any(b is s or b.op == "asbytes" and b.a[0] is s for b in asc):
                return True
            if i is ZERO or i is seqs.ln(s):
                return True
            if i.op == "int":
                # ascii from some byte before i on, or an ascii byte just before it
                for b in asc:
                    if b.op == "slice" and b.a[2] is None and b.a[1].op == "int" and b.a[1].a[0] <= i.a[0] and (b.a[0] is s or b.a[0].op == "asbytes" and b.a[0].a[0] is s):
                        return True
                for base in (s, mk("asbytes", s)):
                    if infeasible(cons | frozenset([(128, ((seqs.nth(base, I(i.a[0] - 1)), -1),))])):
                        return True
        if x.op == "isutf8":
            r = iv.elems(x.a[0])
            if r is not iv.BOTI and r[1] is not None and r[1] < 128 and r[0] is not None and r[0] >= 0:
                return True
    if asc:
        # every byte of an ascii string is below 128
        extra = []
        for c, ts in cons:
            for t, _ in ts:
                if t.op == "nth" and (t.a[0] in asc or any(b.op == "asbytes" and b.a[0] is t.a[0] for b in asc) or any(within(t, b, cons) for b in asc)):
                    extra.append((-127, ((t, 1),)))
        if extra and infeasible(cons | frozenset(extra)):
            return True
    return False


def within(t, b, cons):
    """nth(s, k) is among the bytes of the slice b of s"""
    if b.op != "slice" or b.a[0] is not t.a[0]:
        return False
    i, j = b.a[1], b.a[2]
    d = sub(t.a[1], i)
    r = lit_cons_lt0(d)
    if r is None or not infeasible(cons | r):
        return False
    if j is None:
        return True
    r = lit_cons_lt0(sub(sub(j, t.a[1]), ONE))
    return r is not None and infeasible(cons | r)


def lit_cons_lt0(t):
    """the constraint t < 0"""
    r = le0(add(t, ONE))
    return None if r is None else frozenset([(r[0], tuple(sorted(r[1].items(), key=lambda z: z[0].id)))])


def refute(g, extra=(), budget=20000):
    """True if g can hold for no values; extra: constraints that are known to hold"""
    n = [0]
    memo = {}
    W = []

    def go(t, cons, lits, bl):
        if t is FALSE or t is BOT:
            return True
        n[0] += 1
        if t is TRUE or n[0] > budget or t.op != "g":
            if t is TRUE and bl and bool_conflict(bl, cons):
                return True
            W[:] = lits
            return False
        mk_ = (t, cons, bl)
        if mk_ in memo:
            return memo[mk_]
        v, cs, df = t.a
        res = True
        isb = v.op == "b" and isinstance(v.a[0], T) and v.a[0].op in BOOLS
        for l, x in list(cs) + ([(None, df)] if df is not None else []):
            if x is FALSE or x is BOT:
                continue
            if l is None:
                alts = not_labels(v, [q for q, _ in cs])
            else:
                alts = lits_alts(v, l)
            for nc in alts:
                c2 = cons
                if nc:
                    c2 = cons | frozenset((c, tuple(sorted(ts.items(), key=lambda z: z[0].id))) for c, ts in nc)
                    if infeasible(c2, extra):
                        continue
                if not go(x, c2, lits + [(v, l)], bl | {(v, l)} if isb else bl):
                    res = False
                    break
            if not res:
                break
        memo[mk_] = res
        return res
    r = go(g, frozenset(), [], frozenset())
    refute.witness = list(W) if not r else None
    return r


_mem = {}


def infeasible(cons, extra=()):
    k = (cons, tuple(map(id, extra)))
    r = _mem.get(k)
    if r is not None:
        return r
    cs = [(c, dict(ts)) for c, ts in cons] + [(c, dict(ts)) for c, ts in extra]
    fs, seen = [], set()
    for c, ts in list(cs):
        for t in ts:
            facts_of(t, seen, fs)
    r = empty(cs + fs)
    _mem[k] = r
    return r
