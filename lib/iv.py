"""Interval domain over terms, with least fixpoints (widening, one narrowing) for the state of loops.
Sound: the value of the term always lies in the interval, under the assumption that it is defined."""
from terms import *
import terms
import engine

INF = None
ANY = (None, None)


def jn(a, b):
    if a is BOTI:
        return b
    if b is BOTI:
        return a
    return (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))


BOTI = ("bot",)


def mt(a, b):
    if a is BOTI or b is BOTI:
        return BOTI
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    if lo is not None and hi is not None and lo > hi:
        return BOTI
    return (lo, hi)


def plus(a, b):
    if a is BOTI or b is BOTI:
        return BOTI
    return (None if a[0] is None or b[0] is None else a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1])


def scale(a, k):
    if a is BOTI:
        return a
    lo = None if a[0] is None else a[0] * k
    hi = None if a[1] is None else a[1] * k
    return (lo, hi) if k >= 0 else (hi, lo)


def tyrange(ty):
    while ty is not None and ty[0] == "ref":
        ty = ty[2]
    if ty is None:
        return ANY
    if ty[0] == "num":
        return terms.INTR.get(ty[1], ANY)
    if ty[0] == "char":
        return (0, 0x10FFFF)
    if ty[0] == "bool":
        return (0, 1)
    return ANY


def elemty(ty):
    while ty is not None and ty[0] == "ref":
        ty = ty[2]
    if ty is None:
        return None
    if ty[0] in ("array", "slice"):
        return ty[1]
    if ty[0] == "adt" and ty[1].endswith("vec::Vec") and ty[2]:
        return ty[2][0]
    if ty[0] == "adt" and ty[1].endswith("string::String") or ty[0] == "str":
        return ("num", "u8")
    return None


class Iv:
    def __init__(self):
        self.memo = {}
        self.busy = {}
        self.n = 0

    def iv(self, t, env=()):
        if t is BOT or t is FALSE and False:
            return BOTI
        k = (t, env)
        r = self.memo.get(k)
        if r is not None:
            return r
        if k in self.busy:
            return terms.range_of(t) or ANY
        self.busy[k] = 1
        self.n += 1
        r = self._iv(t, env) if self.n < 20000 else (terms.range_of(t) or ANY)
        del self.busy[k]
        self.memo[k] = r
        return r

    def branches(self, t, env):
        """(sub term, refined environment) of the feasible branches of a guarded term"""
        v, cs, df = t.a
        for l, x in cs:
            if x is BOT:
                continue
            e2 = self.refine(env, v, l)
            if e2 is not None:
                yield x, e2
        if df is not None and df is not BOT:
            e2 = env
            if len(cs) == 1:
                e2 = self.refine_not(env, v, cs[0][0])
            if e2 is not None:
                yield df, e2

    def _iv(self, t, env):
        o = t.op
        for x, r in env:
            if x is t:
                b = self.base(t, ())
                return mt(r, b)
        if o == "int":
            return (t.a[0], t.a[0])
        if o == "g":
            r = BOTI
            for x, e in self.branches(t, env):
                r = jn(r, self.iv(x, e))
            return r
        return self.base(t, env)

    def base(self, t, env):
        o = t.op
        if o == "bot":
            return BOTI
        if o == "lin":
            r = (t.a[0], t.a[0])
            for x, k in t.a[1]:
                r = plus(r, scale(self.iv(x, env), k))
            return r
        tr = terms.range_of(t) or tyrange(tyof(t))
        if o == "lv":
            return mt(self.lv(t), tr)
        if o == "cp":
            return (1, 2**57)
        if o == "fold":
            return mt(self.fold(t, env), tr)
        if o == "while":
            return mt(self.wh(t, env), tr)
        if o == "nth":
            return mt(self.el(t.a[0], env), tr)
        if o in ("fld", "as") and t.a[0].op in ("as", "nth", "fld"):
            return tr
        if o == "cast":
            x = self.iv(t.a[1], env)
            d = terms.INTR.get(t.a[0], ANY)
            if x is not BOTI and x[0] is not None and x[1] is not None and d[0] is not None and d[0] <= x[0] and x[1] <= d[1]:
                return x
            return d
        if o in ("and", "or", "shl", "shr", "mul", "div", "rem", "xor") and len(t.a) == 2:
            a, b = self.iv(t.a[0], env), self.iv(t.a[1], env)
            if a is BOTI or b is BOTI:
                return BOTI
            return mt(self.arith(o, a, b), tr)
        if o == "call" and "leading_zeros" in t.a[0] or o == "call" and "trailing_zeros" in t.a[0] or o == "call" and "count_ones" in t.a[0]:
            for n in (8, 16, 32, 64, 128):
                if f"u{n}" in t.a[0] or f"i{n}" in t.a[0]:
                    return (0, n)
            return (0, 128)
        return tr

    def arith(self, o, a, b):
        pos = a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0
        if o == "and":
            if pos:
                h = [x for x in (a[1], b[1]) if x is not None]
                return (0, min(h) if h else None)
            if b[0] is not None and b[0] >= 0:
                return (0, b[1])
            if a[0] is not None and a[0] >= 0:
                return (0, a[1])
            return ANY
        if o in ("or", "xor"):
            if pos and a[1] is not None and b[1] is not None:
                return (0, (1 << max(a[1].bit_length(), b[1].bit_length())) - 1)
            return ANY
        if o == "mul":
            if None in a or None in b:
                return (0, None) if pos else ANY
            p = [x * y for x in a for y in b]
            return (min(p), max(p))
        if o == "div":
            if pos and b[0] > 0:
                return (0 if b[1] is None else a[0] // b[1], None if a[1] is None else a[1] // b[0])
            return (0, a[1]) if pos else ANY
        if o == "rem":
            if pos:
                h = [x for x in (a[1], None if b[1] is None else b[1] - 1) if x is not None]
                return (0, max(0, min(h)) if h else None)
            return ANY
        if o == "shr" and pos:
            return (0, None if a[1] is None else a[1] >> (b[0] or 0))
        return ANY

    # ---- refinement
    def single(self, t):
        """(atom, constant) of atom + constant"""
        c, ts = lin_parts(t)
        if len(ts) == 1 and ts[0][1] == 1 if not isinstance(ts, dict) else len(ts) == 1 and list(ts.values())[0] == 1:
            a = ts[0][0] if not isinstance(ts, dict) else list(ts)[0]
            return a, c
        return None

    def put(self, env, x, r):
        d = dict(env)
        n = mt(d.get(x, ANY), r)
        n = mt(n, self.iv(x, env))
        if n is BOTI:
            return None
        d[x] = n
        return tuple(sorted(d.items(), key=lambda z: z[0].id))

    def refine(self, env, v, l):
        if v.op == "lt":
            a, b = v.a
            return self.less(env, a, b, 1) if l in (1, True) else self.less(env, b, a, 0)
        if v.op == "b" and len(v.a) == 1 and v.a[0].op == "ovf":
            tn, x = v.a[0].a
            d = terms.INTR.get(tn)
            r = self.iv(x, env)
            if d and r is not BOTI and r[0] is not None and r[1] is not None:
                inside = d[0] <= r[0] and r[1] <= d[1]
                outside = r[0] > d[1] or r[1] < d[0]
                if l in (1, True) and inside or l not in (1, True) and outside:
                    return None
            if l not in (1, True) and d:
                s = self.single(x)
                if s:
                    return self.put(env, s[0], (d[0] - s[1], d[1] - s[1]))
            return env
        if isinstance(l, int) and not isinstance(l, bool) and v.op not in ("b", "discr", "eq", "exists", "nt"):
            s = self.single(v)
            if s:
                return self.put(env, s[0], (l - s[1], l - s[1]))
        return env

    def refine_not(self, env, v, l):
        if isinstance(l, int) and not isinstance(l, bool) and v.op not in ("b", "discr", "eq", "exists", "lt", "nt"):
            r = self.iv(v, env)
            if r is BOTI:
                return None
            if r[0] == l and r[1] == l:
                return None
            s = self.single(v)
            if s and r[0] == l:
                return self.put(env, s[0], (l + 1 - s[1], None))
            if s and r[1] == l:
                return self.put(env, s[0], (None, l - 1 - s[1]))
        return env

    def less(self, env, a, b, strict):
        """a < b (strict 1) or a <= b (0)"""
        ra, rb = self.iv(a, env), self.iv(b, env)
        if ra is BOTI or rb is BOTI:
            return None
        if ra[0] is not None and rb[1] is not None and ra[0] + strict > rb[1]:
            return None
        sa, sb = self.single(a), self.single(b)
        if sa and rb[1] is not None:
            env = self.put(env, sa[0], (None, rb[1] - strict - sa[1]))
            if env is None:
                return None
        if sb and ra[0] is not None:
            env = self.put(env, sb[0], (ra[0] + strict - sb[1], None))
        return env

    # ---- sequences: interval of all elements
    def el(self, t, env=()):
        k = ("el", t, env)
        r = self.memo.get(k)
        if r is not None:
            return r
        if k in self.busy:
            return tyrange(elemty(tyof(t)))
        self.busy[k] = 1
        r = self._el(t, env)
        del self.busy[k]
        self.memo[k] = r
        return r

    def _el(self, t, env):
        for x, r in env:
            if x is t:
                return r
        o = t.op
        if o == "bot":
            return BOTI
        if o == "g":
            r = BOTI
            for x, e in self.branches(t, env):
                r = jn(r, self.el(x, e))
            return r
        if o == "cat":
            r = BOTI
            for p in t.a:
                r = jn(r, self.iv(p.a[0], env) if p.op == "one" else self.el(p.a[0], env))
            return r
        if o == "rep":
            return self.iv(t.a[0], env)
        if o == "slice":
            return self.el(t.a[0], env)
        if o == "upd":
            return jn(self.el(t.a[0], env), self.iv(t.a[2], env))
        if o == "flat":
            kk = settype(mk("sym", "#ivk", ("num", "usize")), ("num", "usize"))
            return self.el(beta(t.a[1], [kk]), env)
        if o == "fold":
            return mt(self.fold(t, env), tyrange(elemty(tyof(t))))
        if o == "while":
            return mt(self.wh(t, env), tyrange(elemty(tyof(t))))
        if o == "lv":
            return mt(self.lv(t), tyrange(elemty(tyof(t))))
        if o == "str":
            return (0, 255)
        r = tyrange(elemty(tyof(t)))
        if r == ANY and o in ("asbytes", "hash", "ibytes"):
            return (0, 255)
        return r

    # ---- loops
    def isseq(self, t):
        ls = [x for x in leaves(t) if x is not BOT]
        if all(x.op in ("cat", "rep", "slice", "flat", "upd", "asbytes") for x in ls):
            return True
        return all(elemty(tyof(x)) is not None or x.op in ("cat", "rep") for x in ls)

    def val(self, t, seq, env):
        return self.el(t, env) if seq else self.iv(t, env)

    def lfp(self, inits, step, env):
        """inits: terms; step(syms, env) -> list of terms or None (with refined env), joined with inits"""
        n = len(inits)
        seqf = [self.isseq(x) for x in inits]
        st0 = [self.val(x, seqf[i], env) for i, x in enumerate(inits)]
        self.depth = getattr(self, "depth", 0) + 1
        syms = []
        for i, x in enumerate(inits):
            ty = tyof(x) or engine.guess_ty(x)
            syms.append(settype(mk("sym", f"#iv{self.depth}.{i}", ty), ty))
        cur = list(st0)
        try:
            for it in range(14):
                nxt = self.image(syms, cur, seqf, step, env)
                new = []
                for i in range(n):
                    j = jn(jn(cur[i], nxt[i]), st0[i])
                    if it >= 4 and j != cur[i] and cur[i] is not BOTI:
                        c = cur[i]
                        lo = j[0] if j[0] == c[0] else widen(j[0], -1)
                        hi = j[1] if j[1] == c[1] else widen(j[1], 1)
                        tr = tyrange(elemty(syms[i].a[1]) if seqf[i] else syms[i].a[1])
                        j = (lo if lo is not None else tr[0], hi if hi is not None else tr[1])
                    new.append(j)
                if new == cur:
                    break
                cur = new
            else:
                cur = [ANY] * n
            # narrowing
            nxt = self.image(syms, cur, seqf, step, env)
            cur = [mt(cur[i], jn(nxt[i], st0[i])) for i in range(n)]
        finally:
            self.depth -= 1
        return syms, cur, seqf

    def image(self, syms, cur, seqf, step, env):
        e = dict(env)
        for s, r in zip(syms, cur):
            if r is BOTI:
                return [BOTI] * len(syms)
            e[s] = r
        e = tuple(sorted(e.items(), key=lambda z: z[0].id))
        out = [BOTI] * len(syms)
        for ts, e2 in step(syms, e):
            for i, x in enumerate(ts):
                out[i] = jn(out[i], self.val(x, seqf[i], e2))
        return out

    def fold(self, t, env):
        j, n, lm, inits = t.a
        kk = settype(mk("sym", "#ivk", ("num", "usize")), ("num", "usize"))

        def step(syms, e):
            b = beta(lm, [kk] + list(syms))
            if b.op == "adt":
                yield b.a[2:], e
            elif b.op == "g":
                for x, e2 in self.leafs(b, e):
                    yield x.a[2:], e2
        key = ("F", lm, inits, env)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.lfp(inits, step, env)
        return r[1][j]

    def leafs(self, t, e):
        if t.op == "g":
            for x, e2 in self.branches(t, e):
                yield from self.leafs(x, e2)
        elif t is not BOT:
            yield t, e

    def head(self, lm, inits, env):
        key = ("W", lm, inits, env)
        r = self.memo.get(key)
        if r is None:
            def step(syms, e):
                b = beta(lm, list(syms))
                for x, e2 in self.leafs(b, e):
                    for g, e3 in self.guard(x.a[2], e2):
                        yield x.a[3:], e3
            r = self.memo[key] = self.lfp(inits, step, env)
        return r

    def guard(self, g, e):
        """refined environments in which the guard can hold"""
        if g is TRUE:
            yield g, e
        elif g.op == "g":
            for x, e2 in self.branches(g, e):
                yield from self.guard(x, e2)

    def wh(self, t, env):
        j, lm, inits = t.a
        syms, cur, seqf = self.head(lm, inits, env)
        if any(x is BOTI for x in cur):
            return BOTI
        e = dict(env)
        for s, r in zip(syms, cur):
            e[s] = r
        e = tuple(sorted(e.items(), key=lambda z: z[0].id))
        b = beta(lm, list(syms))
        r = BOTI
        for x, e2 in self.leafs(b, e):
            for _, e3 in self.guard(Not(x.a[2]), e2):
                r = jn(r, self.val(syms[j], seqf[j], e3))
        return r

    def lv(self, t):
        """loop variable at the head of its loop"""
        info = engine.ENG.lvinfo
        s = getattr(engine.ENG, "lvsol", {}).get(t)
        if s is not None:
            return self.el(s) if self.isseq(s) else self.iv(s)
        i = info.get(t)
        if not isinstance(i, tuple):
            return ANY
        x = engine.ENG.lvterm.get(t)
        if x is None:
            return ANY
        j, lm, inits = x.a
        syms, cur, seqf = self.head(lm, inits, ())
        return cur[j]


def widen(x, side):
    if x is None:
        return None
    ths = [0, 1, 2, 4, 5, 7, 8, 12, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 65535, 65536, 2**31 - 1, 2**32 - 1, 2**57, 2**63 - 1, 2**64 - 1]
    if side > 0:
        for h in ths:
            if h >= x:
                return h
        return None
    for h in (0, -1, -8, -64, -2**31, -2**63):
        if h <= x:
            return h
    return None


_cur = [None, None]


def inst():
    if _cur[0] is not engine.ENG:
        _cur[0], _cur[1] = engine.ENG, Iv()
    return _cur[1]


def range_of(t):
    r = inst().iv(t)
    if r is BOTI or r == ANY or r is None:
        return None
    return r


def elems(t):
    return inst().el(t)
