"""Rule framework: runs the analysis on a function and exposes its summary."""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from terms import *
import terms
import seqs
from seqs import *
import engine
from engine import *
import models
import num


SPD = "stacks_core::utils::StandardPrincipalData"


class Missing(Exception):
    """an anchor of a property is gone from the tree"""


class Violation:
    def __init__(self, key, where, msg):
        self.key, self.where, self.msg = key, where, msg


def adt_t(p, *a):
    return ("adt", p, tuple(a))


U8 = ("num", "u8")
BYTES = ("slice", U8)
VECU8 = ("adt", "alloc::vec::Vec", (U8, ("adt", "alloc::alloc::Global", ())))
STRING = ("adt", "alloc::string::String", ())
STR = ("str",)


class Sum:
    """summary of one analysed function"""

    def __init__(self, e, bid, ret, args, cells):
        self.e, self.bid = e, bid
        self.cur = e.cur
        self.args = args
        self.cells = cells
        self.ret = simp(self.cur, ret) if ret is not BOT else BOT
        self.obl, self.log = e.obl, e.log
        self.span = e.prog.bodies[bid]["span"]

    # guards
    def when(self, variant):
        d = self.e.discr(self.ret)
        return And(self.cur, is_label(d, variant))

    @property
    def ok(self):
        return self.when(0)

    def payload(self, variant, g=None):
        g = self.when(variant) if g is None else g
        return simp(g, self.e.proj(self.e.proj(self.ret, ("v", variant)), ("f", 0)))

    @property
    def okval(self):
        return self.payload(0)

    def cell(self, n):
        return simp(self.cur, self.e.deep(self.e.st.get(self.cells[n], BOT)))

    def where(self):
        b = self.e.prog.bodies[self.bid]
        return f"{b['span']} {b['name']}"

    def fld(self, v, name, variant=0):
        return self.c.fld(v, name, variant)


class Ctx:
    def __init__(self, prog, prop):
        self.prog, self.prop = prog, prop
        self.viol = []
        self.facts = []
        self.functions = set()
        self.nfact = 0
        self.undecided = []
        self.sums = {}
        self.notes = []
        if engine.ENG is None and prog is not None:
            engine.Engine(prog)

    def part(self, f):
        """run one part of a rule; an anchor that is gone is a violation of that part"""
        try:
            f(self)
        except Missing as m:
            self.fact(False, f"anchor:{f.__name__}:{m}", "-", f"an anchor of this rule is gone from the tree: {m}")
        except Exception as x:
            # fail closed: what cannot be analysed has not been shown
            tb = traceback.extract_tb(x.__traceback__)[-1]
            self.fact(False, f"analysis:{f.__name__}", "-", f"the obligation cannot be shown: {type(x).__name__}: {x} ({os.path.basename(tb.filename)}:{tb.lineno})")

    # ---- anchors
    def fn(self, name):
        ids = [i for i in self.prog.names.get(name, []) if self.prog.bodies[i]["kind"] in ("fn", "method")]
        if len(ids) != 1:
            raise Missing(f"function {name} ({len(ids)} found)")
        return ids[0]

    def impl(self, trait, selft, method, targs=()):
        tr = trait
        f = self.prog.find_impl(tr, selft, (selft,) + tuple(targs))
        if f is None or method not in f[0]["items"]:
            raise Missing(f"{method} of {trait} for {selft}")
        return f[0]["items"][method], f[1]

    def method(self, trait, selft, m, targs=(), extra=()):
        """the body a call of a trait method on a type runs (default methods included), and its generic arguments"""
        r = engine.ENG.resolve(trait, m, (selft,) + tuple(targs) + tuple(extra))
        if r is None:
            raise Missing(f"{m} of {trait} for {selft}")
        return r

    def call(self, trait, selft, m, args=None, targs=(), extra=(), names=None):
        bid, subs = self.method(trait, selft, m, targs, extra)
        return self.run(bid, args, subs=subs, names=names)

    def total(self, s, key, what):
        """the analysed function returns for every argument: no reachable panic"""
        bad = [o for o in s.obl if not (o.guard is FALSE or num.refute(o.guard))]
        for o in bad:
            self.fact(False, f"{key}:panic:{o.name}", f"{o.site} {o.fn[-1] if o.fn else ''}", f"{what}: {o.name} can fail here: {show(o.args)[:200] if isinstance(o.args, T) else [show(x)[:80] if isinstance(x, T) else x for x in (o.args or ())]}")
        if not bad:
            self.fact(True, f"{key}:no-panic", s.where(), what)
        return not bad

    def has_adt(self, p):
        if p not in self.prog.adts:
            raise Missing(f"type {p}")
        return p

    # ---- running
    def run(self, bid, args=None, subs=(), names=None, opaque=()):
        """args: list; each is a term, a ('mut', term) for &mut arguments, or None for a symbol"""
        e = engine.Engine(self.prog)
        e.no_inline = set(opaque)
        b = self.prog.bodies[bid]
        av, cells = [], []
        syms = []
        nm = {}
        for n, pl in b["names"]:
            if not pl[1]:
                nm.setdefault(pl[0], n)
        for i in range(b["args"]):
            ty = tsub(self.prog.ltypes(b)[i + 1], subs)
            a = args[i] if args is not None and i < len(args) else None
            mut = False
            t = ty
            while t is not None and t[0] == "ref":
                mut = mut or t[1]
                t = t[2]
            if isinstance(a, tuple):
                mut, a = True, a[1]
            if a is None:
                a = mk("sym", (names or {}).get(i, f"a{i}"), t)
                if t == ("bool",):
                    a = boolify(a)
            syms.append(a)
            c = ("in", i)
            cells.append(c)
            if mut:
                e.st[c] = a
                a = mk("ptr", c, ())
            av.append(a)
        r = e.run_body(bid, subs, av)
        r = e.deep(r)
        s = Sum(e, bid, r, syms, cells)
        s.c = self
        self.functions |= e.inlined
        return s

    def typ(self, v):
        t = ("adt", v.a[0], ()) if v.op == "adt" and v.a[0] != "()" else unref(tyof(v))
        return t

    def bytype(self, v, want):
        """the only field of v (a struct) whose type is the named one"""
        if v.op == "g":
            return apply(None, lambda x: self.bytype(x, want), v)
        if v is BOT:
            return BOT
        t = self.typ(v)
        a = self.prog.adts.get(t[1]) if t else None
        if a is None:
            raise Missing(f"a struct holding {want} ({show(v)[:80]})")
        ix = [i for i, f in enumerate(a["v"][0]["f"]) if (lambda ft: ft is not None and (ft == want or ft[0] == "adt" and ft[1] == want))(unref(self.prog.field_type(t, 0, i)))]
        if len(ix) != 1:
            raise Missing(f"field of type {want} in {t[1]}")
        return engine.ENG.proj(v, ("f", ix[0]))

    def core_of(self, v):
        """descend through wrappers with one field to the representation"""
        if v.op == "g":
            return apply(None, lambda x: self.core_of(x), v)
        while True:
            t = self.typ(v)
            if t is None or t[0] != "adt":
                return v
            a = self.prog.adts.get(t[1])
            if a is None or not a.get("local") or a["kind"] != "struct":
                return v
            fs = [i for i in range(len(a["v"][0]["f"])) if not (lambda ft: ft is not None and ft[0] == "adt" and ft[1].endswith("PhantomData"))(self.prog.field_type(t, 0, i))]
            if len(fs) != 1:
                return v
            v = engine.ENG.proj(v, ("f", fs[0]))

    def fld(self, v, name, variant=0):
        if v.op == "g":
            return apply(None, lambda x: self.fld(x, name, variant), v)
        if v is BOT:
            return BOT
        p = None
        if v.op == "adt":
            p = v.a[0]
        else:
            t = unref(tyof(v))
            if t is None and v.op == "as":
                t = unref(tyof(v.a[0]))
            if t is not None and t[0] == "adt":
                p = t[1]
        if isinstance(name, int):
            i = name
        else:
            i = self.prog.field_index(p, name, variant) if p else None
            if i is None:
                raise Missing(f"field {name} of {p}")
        return engine.ENG.proj(v, ("f", i))

    def path(self, v, *names):
        for n in names:
            v = self.fld(v, n)
        return v

    # ---- facts
    def fact(self, ok, key, where, msg):
        """one obligation of the property: ok is True/False"""
        self.nfact += 1
        self.facts.append((key, bool(ok)))
        if not ok:
            self.viol.append(Violation(key, where, msg))
        return ok

    def implies(self, g, h, key, where, msg):
        """wherever g holds, h holds"""
        x = And(g, Not(h))
        return self.fact(x is FALSE or num.refute(x), key, where, msg)

    def same(self, g, a, b, key, where, msg):
        """a and b agree wherever g holds"""
        x, y = simp(g, a), simp(g, b)
        r = x is y
        if not r:
            x, y = norm(x), norm(y)
            r = x is y
        if not r:
            e = eq(x, y)
            x_ = And(g, Not(e))
            r = x_ is FALSE or num.refute(x_)
        if not r:
            r = same_by_cases(g, x, y)
        if not r:
            msg = msg + f"\n      found:    {show(x)[:600]}\n      expected: {show(y)[:600]}"
        return self.fact(r, key, where, msg)


def same_by_cases(g, x, y, depth=6):
    """x and y agree in each case of the values they select on"""
    x, y = norm(simp(g, x)), norm(simp(g, y))
    if x is y or g is FALSE or x is BOT and y is BOT:
        return True
    if depth == 0:
        return num.refute(g)
    vs = {}
    for t in (x, y):
        for z in subterms(t):
            if z.op == "g" and z.a[0].op != "nt":
                vs.setdefault(z.a[0], [set(), False])
                vs[z.a[0]][0].update(l for l, _ in z.a[1])
    if not vs:
        return num.refute(g)
    v = min(vs, key=order)
    rest = TRUE
    for l in sorted(vs[v][0], key=str):
        h = lit(v, l)
        rest = And(rest, Not(h))
        h = And(g, h)
        if h is not FALSE and not same_by_cases(h, x, y, depth - 1):
            return False
    h = And(g, rest)
    return h is FALSE or same_by_cases(h, x, y, depth - 1)


def fuse(t):
    """consecutive elements of one sequence, written one by one, as a slice of it"""
    out, i, ps = [], 0, t.a
    while i < len(ps):
        p = ps[i]
        j = i + 1
        if p.op == "one" and p.a[0].op == "nth" and p.a[0].a[1].op == "int":
            s, k = p.a[0].a
            while j < len(ps) and ps[j].op == "one" and ps[j].a[0].op == "nth" and ps[j].a[0].a[0] is s and ps[j].a[0].a[1] is I(k.a[0] + j - i):
                j += 1
        if j > i + 1:
            hi = I(k.a[0] + j - i)
            out.append(mk("spr", s if k is ZERO and ln(s) is hi else slice_(s, k, hi)))
        else:
            out.append(p)
        i = j
    return cat(out) if len(out) < len(ps) else t


def norm(t, memo=None):
    """the same value rebuilt bottom up (canonical forms that depend on types learnt later)"""
    memo = {} if memo is None else memo

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r

        def ra(a):
            return tuple(go(x) if isinstance(x, T) else ra(x) if isinstance(x, tuple) else x for x in a)
        if t.op == "g":
            v, cs, df = t.a
            nv = go(v)
            ncs = {l: go(x) for l, x in cs}
            ndf = go(df) if df is not None else None
            r = ite_node(v, ncs, ndf) if nv is v else case_on(nv, ncs, ndf)
        elif not t.a or t.op in ("bv", "lam", "sym"):
            r = t
        else:
            na = ra(t.a)
            r = build(t.op, na) if na != t.a or t.op in ("cat", "spr", "slice") else t
            if r.op == "cat":
                r = fuse(r)
            ty = terms._ty.get(t)
            if ty is not None:
                settype(r, ty)
        memo[t] = r
        return r
    return go(t)


def eta(prog, x, ty, depth=12):
    """constructor form of an opaque value"""
    t = ty
    while t is not None and t[0] == "ref":
        t = t[2]
    if x.op == "g":
        return apply(None, lambda y: eta(prog, y, ty, depth), x)
    if x.op in ("adt", "bot") or t is None or t[0] not in ("adt", "tuple") or depth == 0:
        if x.op == "adt" and t is not None and t[0] == "adt":
            return mk("adt", x.a[0], x.a[1], *[eta(prog, f, prog.field_type(t, x.a[1], i), depth - 1) for i, f in enumerate(x.a[2:])])
        return x
    e = engine.ENG
    if t[0] == "tuple":
        return tup(*[eta(prog, e.proj(x, ("f", i)), t[1][i], depth - 1) for i in range(len(t[1]))])
    a = prog.adts.get(t[1])
    plain = a is not None and a["kind"] == "enum" and not any(v["f"] for v in a["v"])
    if a is None or not a.get("local") and not plain and t[1] not in (OPT, RES):
        return x
    settype(x, t)
    if a["kind"] == "struct":
        n = len(a["v"][0]["f"])
        if t[1] == SPD:
            # invariant: the version of a standard principal is that of its address
            d = [prog.field_type(t, 0, i) for i in range(n)]
            vi = [i for i in range(n) if d[i] and d[i][1] == "stacks_core::address::AddressVersion"]
            ai = [i for i in range(n) if d[i] and d[i][1] == "stacks_core::address::StacksAddress"]
            if len(vi) == 1 and len(ai) == 1 and n == 2:
                ad = eta(prog, e.proj(x, ("f", ai[0])), d[ai[0]], depth - 1)
                av = [i for i in range(2) if prog.field_type(d[ai[0]], 0, i) == d[vi[0]]]
                if len(av) == 1:
                    f = [None, None]
                    f[ai[0]] = ad
                    f[vi[0]] = e.proj(ad, ("f", av[0]))
                    return adt(t[1], 0, *f)
        return adt(t[1], 0, *[eta(prog, e.proj(x, ("f", i)), prog.field_type(t, 0, i), depth - 1) for i in range(n)])
    if a["kind"] == "enum":
        d = e.discr(x, t)
        cases = {}
        for vi, v in enumerate(a["v"]):
            y = mk("as", x, vi)
            c = adt(t[1], vi, *[eta(prog, e.proj(y, ("f", i)), prog.field_type(t, vi, i), depth - 1) for i in range(len(v["f"]))])
            cases[prog.variant_discr(t[1], vi)] = c
        return case_on(d, cases)
    return x


# ---------------------------------------------------------------- type invariants (each is itself checked by P08)
CNAME = "stacks_core::contract_name::ContractName"


def _rr_cname(t):
    if t.op == "len":
        s = t.a[0]
        if s.op == "asbytes":
            s = s.a[0]
        if s.op == "fld" and s.a[1] == 0:
            ty = unref(tyof(s.a[0]))
            if ty is not None and ty[0] == "adt" and ty[1] == CNAME:
                return (1, 40)
    return None


terms.RANGE_RULES.append(_rr_cname)


def Ands(gs):
    r = TRUE
    for g in gs:
        r = And(r, g)
    return r
