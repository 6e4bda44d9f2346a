"""The results of the operations on the 256 and 512 bit integers, summarised with their loops unrolled, as polynomials
over the operands' limbs (`limbs.py`), compared modulo the width with the polynomial of the whole number. Carries and
bits shifted out are atoms that have to cancel. Shifts are summarised for every amount up to beyond the width;
comparisons are evaluated for each order the operands' limbs can be in."""
import itertools
from fw import *
import fw
import engine
import models
import p01
import spec
from limbs import V, Unknown
from terms import *
import terms
from seqs import *

SCOPE = "core"
LEVEL = "other"
RULE = "value(op(x, y)) = op(value(x), value(y)) modulo 2^width as polynomials over the limbs, for the widths of both exported types; calls of an operation inside another stand for the exact result (induction over the carries that are left); comparison: every combination of limb orders"
ASSUME = ["leading_zeros of the standard library", "an operation that calls itself on the remaining carries ends"]
WIDTHS = (4, 8)


def uint(n):
    return ("adt", spec.UINT, (("cval", n),))


def limbs(t, n):
    return [nth(t.a[2] if t.op == "adt" else mk("fld", t, 0), I(i)) for i in range(n)]


TRAITS = {"add": "Add", "sub": "Sub", "mul": "Mul", "shl": "Shl", "shr": "Shr", "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor", "not": "Not"}


class Op:
    def __init__(self, c, n):
        self.c, self.n, self.w = c, n, 64 * n
        self.ids = {}
        for m, tr in TRAITS.items():
            self.ids[m] = self.impl(tr, m)
        self.ids["mul_u32"] = c.fn(spec.UINT + "::mul_u32")

    def impl(self, trait, m):
        got = [im for im in self.c.prog.impls if im.get("trait") and im["trait"].split("<")[0].split("::")[-1] == trait and m in im["items"] and is_uint(im["self"])]
        if len(got) != 1:
            raise Missing(f"one implementation of {trait} for the wide integers ({len(got)} found)")
        return got[0]["items"][m]

    def name(self, t):
        for m, i in self.ids.items():
            if t.a[0] in (i, self.c.prog.bodies[i]["name"]) or t.a[0].split("::")[-2:] == [TRAITS.get(m), m]:
                return m
        return None

    def total(self, s, k):
        """no operation on a limb overflows, no index is out of range"""
        bad = 0
        for o in s.obl:
            g = o.guard
            if g is FALSE or p01.num.refute(p01.patterns(g)):
                continue
            for lits, leaf in paths(g):
                if leaf is FALSE:
                    continue
                v = V()
                if all(v.assume(var, lab) for var, lab in lits):
                    bad += 1
                    self.c.fact(False, f"{k}:{o.name}", o.site, f"this can fail: {o.name} {[show(x)[:80] if isinstance(x, T) else x for x in (o.args or ())]}")
                    break
        self.c.sites = getattr(self.c, "sites", 0) + len(s.obl)
        if not bad:
            self.c.fact(True, f"{k}:total", s.where(), "")

    def value(self, v, t):
        """polynomial of a wide integer, modulo the width"""
        t = t.a[0] if t.op == "ref" else t
        if t.op == "call":
            m = self.name(t)
            a = t.a[2]
            if m == "add":
                return v.add(self.value(v, a[0]), self.value(v, a[1]))
            if m == "sub":
                return v.add(self.value(v, a[0]), self.value(v, a[1]), -1)
            if m == "not":
                return v.add(v.const((1 << self.w) - 1), self.value(v, a[0]), -1)
            if m == "mul_u32":
                return v.times(self.value(v, a[0]), v.num(a[1]))
            if m == "mul":
                return v.times(self.value(v, a[0]), self.value(v, a[1]))
            if m == "shl" and a[1].op == "int":
                return v.scale(self.value(v, a[0]), 1 << a[1].a[0])
            raise Unknown(show(t)[:120])
        if t.op == "adt":
            s = t.a[2]
        elif t.op == "sym":
            s = self.c.core_of(t)
        else:
            raise Unknown(show(t)[:120])
        r = {}
        for i in range(self.n):
            r = v.add(r, v.num(nth(s, I(i))), 1 << (64 * i))
        return r

    def settled(self, t, f, key, where, msg):
        """f(v, leaf) on every path of the term"""
        if t.op == "call":
            try:
                if f(V(), t):
                    self.c.fact(True, key, where, "")
                    return
            except Unknown:
                pass
            t = self.lift(t)
        elif t.op == "adt" and len(t.a) == 3:
            t = self.lift(t)
        for lits, leaf in paths(t):
            v = V()
            ok = True
            for _ in range(2):
                for var, lab in lits:
                    ok = ok and v.assume(var, lab)
            if not ok:
                continue
            try:
                good = f(v, leaf)
                say = show(leaf)[:160]
            except Unknown as e:
                good, say = False, f"not understood: {e}"
            self.c.fact(good, key, where, f"{msg}: {say}")

    def lift(self, t):
        """the cases of an operand or of the limbs as cases of the whole term"""
        if t.op == "g":
            return mapg(t, self.lift)
        if t.op == "adt" and len(t.a) == 3 and t.a[2].op == "g":
            return mapg(t.a[2], lambda x: mk("adt", t.a[0], t.a[1], x))
        if t.op == "ref" and isinstance(t.a[0], T):
            return mapg(self.lift(t.a[0]), lambda x: mk("ref", x, *t.a[1:]))
        if t.op == "call" and self.name(t):
            args = [self.lift(x) if isinstance(x, T) else x for x in t.a[2]]
            for i, x in enumerate(args):
                if x.op == "g":
                    return self.lift(mapg(x, lambda z: mk("call", t.a[0], t.a[1], tuple(args[:i] + [z] + args[i + 1:]), *t.a[3:])))
            return mk("call", t.a[0], t.a[1], tuple(args), *t.a[3:])
        return t

    def numbers(self):
        return mk("sym", "x", uint(self.n)), mk("sym", "y", uint(self.n))

    def check(self, bid, args, want, key, opaque=(), subs=None, total=True):
        s = self.c.run(bid, args, subs=subs or (("cval", self.n),), opaque=[self.ids[o] for o in opaque])
        if total:
            self.total(s, key)
        self.settled(s.ret, lambda v, t: v.eq(self.value(v, t), want(v), self.w), key, s.where(), "not the exact result modulo the width")
        return s


def mapg(g, f):
    if g.op != "g":
        return f(g)
    return mk("g", g.a[0], tuple((l, mapg(x, f)) for l, x in g.a[1]), mapg(g.a[2], f) if g.a[2] is not None else None)


def is_uint(t):
    while t and t[0] == "ref":
        t = t[2]
    return bool(t) and t[0] == "adt" and t[1] == spec.UINT


def arithmetic(c):
    for n in WIDTHS:
        o = Op(c, n)
        x, y = o.numbers()
        k = f"Uint{n}:"
        X = lambda v: o.value(v, x)
        Y = lambda v: o.value(v, y)
        o.check(o.ids["add"], [x, y], lambda v: v.add(X(v), Y(v)), k + "add", ["add"])
        o.check(o.ids["sub"], [x, y], lambda v: v.add(X(v), Y(v), -1), k + "sub", ["add"])
        m = mk("sym", "m", ("num", "u32"))
        o.check(o.ids["mul_u32"], [x, m], lambda v: v.times(X(v), v.num(m)), k + "mul_u32", ["add"])
        o.check(o.ids["mul"], [x, y], lambda v: v.times(X(v), Y(v)), k + "mul", ["add", "mul_u32", "shl"])
        s = c.run(c.fn(spec.UINT + "::increment"), [("mut", x)], subs=(("cval", n),))
        o.total(s, k + "increment")
        o.settled(s.cell(0), lambda v, t: v.eq(o.value(v, t), v.add(X(v), v.const(1)), o.w), k + "increment", s.where(), "not one more modulo the width")


def shifts(c):
    for n in WIDTHS:
        o = Op(c, n)
        x, _ = o.numbers()
        for a in list(range(0, o.w + 66)) + [1 << 20, (1 << 32) + 1, (1 << 63) + 5, (1 << 64) - 1]:
            o.check(o.ids["shl"], [x, I(a)], lambda v: v.scale(o.value(v, x), 1 << min(a, o.w)), f"Uint{n}:shl:{a}")
            s = c.run(o.ids["shr"], [x, I(a)], subs=(("cval", n),))
            o.total(s, f"Uint{n}:shr:{a}")

            def right(v, t):
                src = [v.num(z) for z in limbs(x, n)] + [{}] * (min(a // 64, n) + 2)
                got = [v.num(z) for z in limbs(t, n)] if t.op == "adt" else None
                if got is None:
                    return False
                for i in range(n):
                    lo, hi = src[i + min(a // 64, n)], src[i + min(a // 64, n) + 1]
                    b = a % 64
                    want = v.add(v.high(lo, b), v.wrap(v.scale(hi, 1 << (64 - b)), 64)) if b else lo
                    if not v.eq(got[i], want, 512):
                        return False
                return True
            o.settled(s.ret, right, f"Uint{n}:shr:{a}", s.where(), f"not shifted right by {a}")


def bitwise(c):
    for n in WIDTHS:
        o = Op(c, n)
        x, y = o.numbers()
        xs, ys = limbs(x, n), limbs(y, n)
        for m, op in (("bitand", "and"), ("bitor", "or"), ("bitxor", "xor")):
            s = c.run(o.ids[m], [x, y], subs=(("cval", n),))
            want = cat([one(terms.BUILD[op](a, b) if op in terms.BUILD else mk(op, a, b)) for a, b in zip(xs, ys)])
            same_limbs(c, s, x, [(op, a, b) for a, b in zip(xs, ys)], f"Uint{n}:{m}")
        s = c.run(o.ids["not"], [x], subs=(("cval", n),))
        same_limbs(c, s, x, [("not", a) for a in xs], f"Uint{n}:not")


def same_limbs(c, s, x, want, key):
    n = len(want)
    if s.ret.op != "adt":
        c.fact(False, key, s.where(), f"not one result: {show(s.ret)[:160]}")
        return
    for i, (g, w) in enumerate(zip(limbs(s.ret, n), want)):
        ok = g.op == w[0] and (g.a[0] is w[1] if len(w) == 2 else (g.a[:2] == (w[1], w[2]) or g.a[:2] == (w[2], w[1])))
        c.fact(ok, f"{key}:{i}", s.where(), f"limb {i} is {show(g)[:160]}")


def order(t, xs, ys, rel):
    """the term under an order of each pair of limbs (-1, 0, 1)"""
    while t.op == "g":
        v, cs, df = t.a
        n = decide(v, xs, ys, rel)
        if n is None:
            raise Unknown(show(v)[:120])
        for l, x in cs:
            if l == n or (l is True and n == 1) or (l is False and n == 0):
                t = x
                break
        else:
            t = df
        if t is None:
            raise Unknown(f"{show(v)[:80]} = {n}")
    return t


def decide(v, xs, ys, rel):
    if v.op == "g":
        r = order(v, xs, ys, rel)
        return 1 if r is TRUE else 0 if r is FALSE else r.a[0] if r.op == "int" else r.a[1] if r.op == "adt" else None
    if v.op == "b" and isinstance(v.a[0], T):
        v = v.a[0]
    if len(v.a) == 2 and all(isinstance(z, T) for z in v.a):
        a, b = v.a
        for i, (x, y) in enumerate(zip(xs, ys)):
            if (a, b) == (x, y) or (a, b) == (y, x):
                r = rel[i] if a is x else -rel[i]
                if v.op == "lt":
                    return int(r < 0)
                if v.op == "le":
                    return int(r <= 0)
                if v.op == "eq":
                    return int(r == 0)
                if v.op == "cmp3":
                    return r + 1
    return None


def comparison(c):
    for n in WIDTHS:
        o = Op(c, n)
        x, y = o.numbers()
        xs, ys = limbs(x, n), limbs(y, n)
        t = uint(n)
        cases = list(itertools.product((-1, 0, 1), repeat=n))

        def each(s, want, key, read):
            o.total(s, key)
            bad = None
            for rel in cases:
                top = next((r for r in reversed(rel) if r), 0)
                try:
                    got = read(order(s.ret, xs, ys, rel), rel)
                except Unknown as e:
                    bad = f"not understood: {e}"
                    break
                if got != want(top):
                    bad = f"limbs {rel} (lowest first) give {got}"
                    break
            c.fact(bad is None, key, s.where(), f"not the order of the numbers: {bad}")
            c.sites = getattr(c, "sites", 0) + len(cases)
        b, subs = c.method("core::cmp::Ord", t, "cmp", ())
        variant = lambda r, rel: r.a[1] if r.op == "adt" else None
        each(c.run(b, [x, y], subs=subs), lambda r: r + 1, f"Uint{n}:cmp", variant)
        b, subs = c.method("core::cmp::PartialOrd", t, "partial_cmp", (t,))
        each(c.run(b, [x, y], subs=subs), lambda r: r + 1, f"Uint{n}:partial_cmp", lambda r, rel: variant(order(r.a[2], xs, ys, rel), rel) if r.op == "adt" and r.a[1] == 1 else None)
        b, subs = c.method("core::cmp::PartialEq", t, "eq", (t,))
        s = c.run(b, [x, y], subs=subs)
        g = s.ret
        want = TRUE
        for p, q in zip(xs, ys):
            want = And(want, eq(p, q))
        c.fact(g is want or g is eq(c.core_of(x), c.core_of(y)), f"Uint{n}:eq", s.where(), f"equality is not that of all limbs: {show(g)[:200]}")


def exact(c, o, s, want, key, w=None):
    """the result is the number `want(v)`"""
    o.total(s, key)
    o.settled(s.ret, lambda v, t: v.eq(o.value(v, t), want(v), w or o.w), key, s.where(), "not the same number")


def conversions(c):
    for n in WIDTHS:
        o = Op(c, n)
        x, _ = o.numbers()
        xs = limbs(x, n)
        k = f"Uint{n}:"
        sub = (("cval", n),)
        for name, want in (("one", 1), ("MIN", 0), ("MAX", (1 << 64 * n) - 1)):
            try:
                f = c.fn(spec.UINT + "::" + name)
            except Missing:
                if name == "one":
                    continue
                f = [i for i, b in c.prog.bodies.items() if b["name"] == spec.UINT + "::" + name]
                if len(f) != 1:
                    raise
                f = f[0]
            exact(c, o, c.run(f, [], subs=sub), lambda v: v.const(want), k + name)
        b, subs = c.method("core::default::Default", uint(n), "default", ())
        exact(c, o, c.run(b, [], subs=subs), lambda v: {}, k + "default")
        for ty in ("u8", "u16", "u32", "u64", "u128"):
            b, subs = c.method("core::convert::From", uint(n), "from", (("num", ty),))
            z = mk("sym", "v", ("num", ty))
            exact(c, o, c.run(b, [z], subs=subs), lambda v: v.num(z), k + "from:" + ty)
        arr = mk("sym", "limbs", ("array", ("num", "u64"), ("cval", n)))
        s = c.run(c.fn(spec.UINT + "::from_u64_array"), [arr], subs=sub)
        c.same(s.cur, s.ret, mk("adt", spec.UINT, 0, arr), k + "from_u64_array", s.where(), "not these limbs")
        for name, w in (("low_u32", 32), ("low_u64", 64)):
            s = c.run(c.fn(spec.UINT + "::" + name), [x], subs=sub)
            v = V()
            c.fact(v.eq(v.num(s.ret), v.wrap(v.num(xs[0]), w), 512), k + name, s.where(), f"not the lowest {w} bits: {show(s.ret)[:120]}")
        b, subs = c.method("core::convert::AsRef", uint(n), "as_ref", (uint(n),))
        s = c.run(b, [x], subs=subs)
        c.same(s.cur, s.ret, x, k + "as_ref", s.where(), "not the number itself")
        lengths(c, o, x, xs, k, sub)
        # between widths
        for m in WIDTHS:
            y = mk("sym", "z", uint(m))
            ys = limbs(y, m)
            val = lambda v: v.settle(sum_limbs(v, ys))
            for name, lossy in (("from_uint", False), ("from_uint_lossy", True)):
                s = c.run(c.fn(spec.UINT + "::" + name), [y], subs=(("cval", n), ("cval", m), uint(m)))
                between(c, o, s, val, f"{k}{name}:{m}", m, n, lossy)
            for name, lossy in (("to_uint", False), ("to_uint_lossy", True)):
                s = c.run(c.fn(spec.UINT + "::" + name), [y], subs=(("cval", m), ("cval", n)))
                between(c, o, s, val, f"{k}{name}:{m}", m, n, lossy)


def sum_limbs(v, ys):
    r = {}
    for i, y in enumerate(ys):
        r = v.add(r, v.num(y), 1 << (64 * i))
    return r


def between(c, o, s, val, key, m, n, lossy):
    """Uint<m> as Uint<n>"""
    if not lossy and m > n:
        c.fact(s.cur is FALSE, key, s.where(), "a larger number is cut to a smaller type instead of being refused")
        return
    if lossy or m < n:
        c.fact(s.cur is TRUE, key + ":done", s.where(), f"refused when {show(Not(s.cur))[:120]}")
    if s.cur is FALSE:
        return
    o.settled(s.ret, lambda v, t: v.eq(o.value(v, t), val(v), o.w), key, s.where(), "not the same number (modulo the width)")


def lengths(c, o, x, xs, k, sub):
    s = c.run(c.fn(spec.UINT + "::bits"), [x], subs=sub)
    o.total(s, k + "bits")
    n = o.n
    for top in range(n):
        t = s.ret
        for j in range(top + 1, n):
            t = zero(t, xs[j], True)
        if not top:
            z = norm(simp(TRUE, zero(t, xs[0], True)))
            lz = [y for y in subterms(z) if y.op == "call" and y.a[0].split("::")[-1] == "leading_zeros"]
            c.fact(z is ZERO or len(lz) == 1 and lz[0].a[2][0] is ZERO and z is norm(mk("lin", 64, ((lz[0], -1),))), f"{k}bits:zero", s.where(), f"the length of zero: {show(z)[:200]}")
        t = zero(t, xs[top], False)
        t = norm(simp(TRUE, t))
        lz = [y for y in subterms(t) if y.op == "call" and y.a[0].split("::")[-1] == "leading_zeros"]
        ok = len(lz) == 1 and lz[0].a[2][0] is xs[top] and t is norm(mk("lin", 64 * (top + 1), ((lz[0], -1),)))
        c.fact(ok, f"{k}bits:{top}", s.where(), f"the length of a number whose highest limb is {top}: {show(t)[:200]}")


def zero(t, x, yes):
    if yes:
        return norm(subst(t, {x: ZERO}))
    return norm(simp(Not(is_label(x, 0)), restrict(t, [(x, ("not", (0,)))])))


def words(c):
    """as a vector of limbs and back, and in print"""
    vec = ("adt", "alloc::vec::Vec", (("num", "u64"), ("adt", "alloc::alloc::Global", ())))
    for n in WIDTHS:
        o = Op(c, n)
        x, _ = o.numbers()
        xs = limbs(x, n)
        k, sub = f"Uint{n}:", (("cval", n),)
        for tr, m in (("Into", "into"), ("TryFrom", "try_from")):
            ims = [im for im in c.prog.impls if (im.get("trait") or "").split("::")[-1] == tr and is_uint(im["self"]) and m in im["items"] and im["a"][1:] == (vec,)]
            if len(ims) != 1:
                raise Missing(f"{tr} of a vector of limbs ({len(ims)} found)")
            if tr == "Into":
                s = c.run(ims[0]["items"][m], [x], subs=sub)
                c.fact(all(nth(s.ret, I(i)) is xs[i] for i in range(n)) and ln(s.ret) is I(n), k + "into", s.where(), f"not the limbs: {show(s.ret)[:120]}")
                continue
            v = mk("sym", "v", vec)
            s = c.run(ims[0]["items"][m], [v], subs=sub)
            right = is_label(ln(v), n)
            c.fact(And(s.ok, Not(right)) is FALSE and And(right, Not(s.ok)) is FALSE, k + "try_from:length", s.where(), f"accepted when {show(s.ok)[:120]}")
            got = norm(simp(right, restrict(s.okval, [(ln(v), n)])))
            lm = got.a[2] if got.op == "adt" and got.a[0] == spec.UINT else None
            c.fact(lm is not None and (lm is v or all(nth(lm, I(i)) is nth(v, I(i)) for i in range(n))), k + "try_from", s.where(), f"not these limbs: {show(got)[:120]}")


PARTS = [words, arithmetic, shifts, bitwise, comparison, conversions]
