"""Exact values of terms over machine integers as polynomials with integer coefficients. What wraps, overflows or is
shifted out is kept as an atom of its own, H(L, s) = floor(L / 2^s), so that carries cancel where they are taken up
again. No search: two values are equal if their polynomials (modulo the width) are."""
from terms import *
import engine
import terms

W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}


class Unknown(Exception):
    pass


class V:
    """facts: what is known of atoms on a path: {atom: int}; ideal: call term -> polynomial or None"""

    def __init__(self, ideal=lambda t: None, given=None):
        self.ideal, self.facts, self.rng, self.given = ideal, {}, {}, given or {}

    # polynomials: {monomial (sorted tuple of atoms): coefficient}
    def const(self, n):
        return {(): n} if n else {}

    def atom(self, a, lo, hi):
        self.rng[a] = (lo, hi)
        if a in self.facts:
            return self.const(self.facts[a])
        return {(a,): 1}

    def add(self, p, q, k=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + c * k
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def scale(self, p, k):
        return {m: c * k for m, c in p.items()} if k else {}

    def times(self, p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                r = self.add(r, {self.mono(m + n): c * d})
        return r

    def mono(self, m):
        """a product of atoms; of bits, those that follow from another one go"""
        m = sorted(m, key=str)
        out = []
        for i, x in enumerate(m):
            if self.rng[x] == (0, 1):
                if x in out:
                    continue
                if x[0] == "H" and any(y is not x and y != x and y[0] == "H" and y[2] == x[2] and self.rng[y] == (0, 1) and self.implied(y, x) and not (self.implied(x, y) and str(y) > str(x)) for y in m):
                    continue
            out.append(x)
        return tuple(out)

    def implied(self, y, x):
        """K_x >= K_y"""
        return self.range(self.add(dict(x[1]), dict(y[1]), -1))[0] >= 0

    def range(self, p, depth=4):
        lo = hi = 0
        for m, c in p.items():
            a, b = 1, 1
            for x in m:
                l, h = self.rng[x]
                a, b = a * l, b * h
            a, b = (a * c, b * c) if c >= 0 else (b * c, a * c)
            lo, hi = lo + a, hi + b
        for m, c in p.items():
            # k f (K - 2^s H(K, s)) is f times a residue
            for i, h in enumerate(m):
                if c < 0 and h[0] == "H" and -c % (1 << h[2]) == 0:
                    k, f = -c >> h[2], m[:i] + m[i + 1:]
                    r = {x: y for x, y in p.items() if x != m}
                    r = self.add(r, self.times({f: k}, dict(h[1])), -1)
                    if depth and len(r) <= len(p):
                        l0, h0 = self.range(r, depth - 1)
                        top = k * ((1 << h[2]) - 1)
                        for x in f:
                            top *= self.rng[x][1]
                        lo, hi = max(lo, l0), min(hi, h0 + top)
        return lo, hi

    def high(self, p, s):
        """floor(p / 2^s)"""
        if s == 0:
            return p
        out, rest = {}, {}
        for m, c in p.items():
            q = (c + (1 << s - 1) - 1) >> s
            r = c - (q << s)
            if q:
                out[m] = q
            if r:
                rest[m] = r
        lo, hi = self.range(rest)
        if lo >> s == hi >> s:
            return self.add(out, self.const(lo >> s))
        if len(rest) == 1:
            (m, c), = rest.items()
            if c == 1 and len(m) == 1 and m[0][0] == "H":
                return self.add(out, self.mkh(m[0][1], m[0][2] + s))
            # floor(2^k x / 2^s) = floor(x / 2^(s-k))
            k = (c & -c).bit_length() - 1
            if k > 0 and k < s:
                return self.add(out, self.high({m: c >> k}, s - k))
        else:
            # multiples of 2^k beside less than 2^k do not matter
            for k in range(s, 0, -1):
                small = {m: c for m, c in rest.items() if c % (1 << k)}
                if small and len(small) < len(rest):
                    l, h = self.range(small)
                    if l >= 0 and h < 1 << k:
                        return self.add(out, self.high({m: c >> k for m, c in rest.items() if m not in small}, s - k))
        return self.add(out, self.mkh(tuple(sorted(rest.items(), key=str)), s))

    def mkh(self, key, s):
        lo, hi = self.range(dict(key))
        if lo >> s == hi >> s:
            return self.const(lo >> s)
        return self.atom(("H", key, s), lo >> s, hi >> s)

    def wrap(self, p, w):
        lo, hi = self.range(p)
        if lo >= 0 and hi < 1 << w:
            return p
        return self.add(p, self.high(p, w), -(1 << w))

    def width(self, t):
        y = tyof(t)
        while y is not None and y[0] == "ref":
            y = y[2]
        return W.get(y[1]) if y is not None and y[0] == "num" else None

    def num(self, t):
        o = t.op
        if t in self.given:
            return self.given[t]
        if o == "int":
            return self.const(t.a[0])
        if o == "lin":
            r = self.const(t.a[0])
            for x, k in t.a[1]:
                r = self.add(r, self.num(x), k)
            return r
        if o == "cast":
            w = W.get(t.a[0] if isinstance(t.a[0], str) else t.a[0][1])
            if w is None:
                raise Unknown(show(t)[:80])
            return self.wrap(self.num(t.a[1]), w)
        if o == "div" and t.a[1].op == "int" and pow2(t.a[1].a[0]) is not None:
            return self.high(self.num(t.a[0]), pow2(t.a[1].a[0]))
        if o == "rem" and t.a[1].op == "int" and pow2(t.a[1].a[0]) is not None:
            return self.wrap(self.num(t.a[0]), pow2(t.a[1].a[0]))
        if o == "shr" and t.a[1].op == "int":
            return self.high(self.num(t.a[0]), t.a[1].a[0])
        if o == "shl" and t.a[1].op == "int":
            w = self.width(t) or self.width(t.a[0]) or 64
            return self.wrap(self.scale(self.num(t.a[0]), 1 << t.a[1].a[0]), w)
        if o == "mul":
            return self.times(self.num(t.a[0]), self.num(t.a[1]))
        if o == "not":
            w = self.width(t) or self.width(t.a[0]) or 64
            return self.add(self.const((1 << w) - 1), self.num(t.a[0]), -1)
        if o == "and":
            for x, y in (t.a, t.a[::-1]):
                if y.op == "int" and pow2(y.a[0] + 1) is not None:
                    return self.wrap(self.num(x), pow2(y.a[0] + 1))
        if o in ("or", "xor", "add"):
            p, q = self.num(t.a[0]), self.num(t.a[1])
            if o == "add" or self.disjoint(p, q):
                return self.add(p, q)
        if o == "g":
            return self.choice(t)
        w = self.width(t)
        if o in ("nth", "sym", "fld", "call") and (w or o == "nth"):
            return self.atom(("T", t.id, show(t)), 0, (1 << (w or 64)) - 1)
        if o in ("and", "or", "xor") and w:
            return self.atom(("T", t.id, show(t)), 0, (1 << w) - 1)
        raise Unknown(show(t)[:120])

    def disjoint(self, p, q):
        for x, y in ((p, q), (q, p)):
            lo, hi = self.range(y)
            if lo >= 0 and not y:
                return True
            k = hi.bit_length()
            if lo >= 0 and all(c % (1 << k) == 0 for c in x.values()):
                return True
        return False

    def truth(self, v):
        """the 0/1 polynomial of a condition"""
        if v.op == "lt":
            a, b = self.num(v.a[0]), self.num(v.a[1])
            # wrapped sum below one of its parts
            for L in sums(v.a[0]):
                p = self.num(L)
                lo, hi = self.range(self.add(p, b, -1))
                if lo >= 0 and hi < 1 << 64 and self.range(p)[1] < 1 << 65:
                    return self.high(p, 64)
            lo, hi = self.range(self.add(b, a, -1))
            if lo > 0:
                return self.const(1)
            if hi <= 0:
                return {}
            if self.range(a) == (0, 0):  # 0 < b
                if self.range(b)[1] == 1:
                    return b
            l, h = self.range(b)
            if l == h and l > 0 and l & (l - 1) == 0 and self.range(a)[0] >= 0 and self.range(a)[1] < 2 * l:  # a < 2^k
                return self.add(self.const(1), self.high(a, l.bit_length() - 1), -1)
            l, h = self.range(a)
            if l == h and l & (l + 1) == 0 and self.range(b)[0] >= 0 and self.range(b)[1] < 2 * (l + 1):  # 2^k - 1 < b
                return self.high(b, l.bit_length())
        if v.op == "b" and isinstance(v.a[0], T):
            v = v.a[0]
        if v.op == "ovf":
            w = W.get(v.a[0] if isinstance(v.a[0], str) else v.a[0][1])
            p = self.num(v.a[1])
            if w and 0 <= self.range(p)[0] and self.range(p)[1] < 1 << (w + 1):
                return self.high(p, w)
            if w and self.high(p, w) == {}:
                return {}
            if w and self.range(p)[0] >= -(1 << w) and self.range(p)[1] < 1 << w:
                return self.scale(self.high(p, w), -1)
        p = self.num(v)
        lo, hi = self.range(p)
        if (lo, hi) in ((0, 1), (0, 0), (1, 1)):
            return p
        if (lo, hi) == (-1, 0):  # of a Boolean
            return {}
        raise Unknown(show(v)[:120])

    def choice(self, t):
        v, cs, df = t.a
        vals = dict(cs)
        if set(vals) <= {0, 1} and len(vals) + (df is not None) == 2:
            x0, x1 = vals.get(0, df), vals.get(1, df)
            q = self.truth(v)
            if q == {}:
                return self.num(x0)
            if q == self.const(1):
                return self.num(x1)
            a = self.under(q, 0, x0)
            b = self.under(q, 1, x1)
            if a == b:
                return a
            return self.add(a, self.times(q, self.add(b, a, -1)))
        raise Unknown(show(v)[:120])

    def under(self, q, n, t):
        rest = {m: c for m, c in q.items() if m}
        if len(rest) == 1:
            (m, c), = rest.items()
            if len(m) == 1 and m[0] not in self.facts and (n - q.get((), 0)) % c == 0:
                self.facts[m[0]] = (n - q.get((), 0)) // c
                try:
                    return self.num(t)
                finally:
                    del self.facts[m[0]]
        return self.num(t)

    def assume(self, v, label):
        """take a literal of a path; False: the path is impossible"""
        zero = label == 0 or (isinstance(label, tuple) and label[0] == "not" and 1 in label[1] and 0 not in label[1])
        if v.op == "cast" or v.op in ("nth", "lin"):
            p = self.num(v)
            L = self.num(v.a[1]) if v.op == "cast" else p
            lo, hi = self.range(L)
            q = self.high(L, 64)
            if zero and v.op == "cast" and 1 <= lo and hi == 1 << 64 or (v.op == "cast" and not zero and hi == 1 << 64 and lo >= 0):
                return self.fix(q, 1 if zero else 0)
            return True
        try:
            q = self.truth(v)
        except Unknown:
            return True
        return self.fix(q, 0 if zero else 1)

    def fix(self, q, n):
        lo, hi = self.range(q)
        if not lo <= n <= hi:
            return False
        rest = {m: c for m, c in q.items() if m}
        if len(rest) == 1:
            (m, c), = rest.items()
            if len(m) == 1 and (n - q.get((), 0)) % c == 0:
                self.facts[m[0]] = (n - q.get((), 0)) // c
        return True

    def eq(self, p, q, w):
        d = self.add(self.settle(p), self.settle(q), -1)
        return all(c % (1 << w) == 0 for c in d.values())

    def settle(self, p):
        r = {}
        for m, c in p.items():
            k = c
            rest = []
            for a in m:
                if a in self.facts:
                    k *= self.facts[a]
                else:
                    rest.append(a)
            r = self.add(r, {tuple(rest): k} if k else {})
        return r


def sums(t):
    if t.op == "cast":
        yield t.a[1]
    elif t.op == "g":
        return


def pow2(n):
    return n.bit_length() - 1 if n > 0 and n & (n - 1) == 0 else None
