"""Gated value-flow analysis of MIR bodies.

Every block is evaluated once, in topological order, with states joined at merge
points (guarded values); loops are summarised in closed form; calls to functions
of the analysed crates are analysed in context; other calls are models (models.py)
or uninterpreted terms.
"""
import json, struct
from terms import *
import terms
from seqs import *
import seqs

OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
POLL = "core::task::poll::Poll"
ORD = "core::cmp::Ordering"


def adt(p, v, *f):
    return mk("adt", p, v, *f)


def Some(x):
    return adt(OPT, 1, x)


NONE = adt(OPT, 0)


def Ok(x):
    return adt(RES, 0, x)


def Err(x):
    return adt(RES, 1, x)


def tup(*x):
    return adt("()", 0, *x)


# ---------------------------------------------------------------- types
def cty(j):
    if j is None:
        return None
    k = j["k"]
    if k == "num":
        return ("num", j["n"])
    if k in ("bool", "char", "str", "never"):
        return (k,)
    if k == "adt":
        return ("adt", j["p"], tuple(cty(x) for x in j["a"]))
    if k in ("ref", "ptr"):
        return (k, j["m"], cty(j["t"]))
    if k == "slice":
        return ("slice", cty(j["t"]))
    if k == "array":
        return ("array", cty(j["t"]), cty(j["n"]))
    if k == "tuple":
        return ("tuple", tuple(cty(x) for x in j["a"]))
    if k == "param":
        return ("param", j["i"], j["n"])
    if k == "cparam":
        return ("cparam", j["n"], j["i"])
    if k == "cval":
        return ("cval", j["v"])
    if k == "fndef":
        return ("fndef", j["p"], j["name"], tuple(cty(x) for x in j["a"]))
    if k in ("closure", "coroutine", "alias"):
        return (k, j["p"], tuple(cty(x) for x in j["a"]))
    return (k, j.get("s"))


def tsub(t, s):
    if t is None or not s:
        return t
    k = t[0]
    if k == "param":
        return s[t[1]] if t[1] < len(s) and s[t[1]] is not None else t
    if k == "cparam":
        return s[t[2]] if t[2] < len(s) and s[t[2]] is not None else t
    if k in ("adt", "closure", "coroutine", "alias"):
        return (k, t[1], tuple(tsub(x, s) for x in t[2]))
    if k in ("ref", "ptr"):
        return (k, t[1], tsub(t[2], s))
    if k == "slice":
        return (k, tsub(t[1], s))
    if k == "array":
        return (k, tsub(t[1], s), tsub(t[2], s))
    if k == "tuple":
        return (k, tuple(tsub(x, s) for x in t[1]))
    if k == "fndef":
        return (k, t[1], t[2], tuple(tsub(x, s) for x in t[3]))
    return t


def unref(t):
    while t is not None and (t[0] in ("ref", "ptr") or (t[0] == "adt" and t[1] in ("alloc::boxed::Box", "alloc::sync::Arc", "alloc::rc::Rc", "core::pin::Pin", "alloc::borrow::Cow"))):
        if t[0] == "adt":
            ts = [x for x in t[2] if x is not None]
            if not ts:
                return t
            t = ts[0]
        else:
            t = t[2]
    return t


def unify(pat, t, s):
    if pat is None or t is None:
        return True
    if pat[0] == "param":
        i = pat[1]
        if i in s:
            return s[i] == t or True
        s[i] = t
        return True
    if pat[0] == "cparam":
        s[pat[2]] = t
        return True
    if pat[0] != t[0]:
        return t[0] in ("param", "alias") and False
    k = pat[0]
    if k in ("adt", "closure", "coroutine", "alias"):
        return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(unify(a, b, s) for a, b in zip(pat[2], t[2]))
    if k in ("ref", "ptr"):
        return unify(pat[2], t[2], s)
    if k == "slice":
        return unify(pat[1], t[1], s)
    if k == "array":
        return unify(pat[1], t[1], s) and unify(pat[2], t[2], s)
    if k == "tuple":
        return len(pat[1]) == len(t[1]) and all(unify(a, b, s) for a, b in zip(pat[1], t[1]))
    return pat == t


RANGE = {}
for _n in (8, 16, 32, 64, 128):
    RANGE[f"u{_n}"] = (0, 2**_n - 1)
    RANGE[f"i{_n}"] = (-2**(_n - 1), 2**(_n - 1) - 1)
RANGE["usize"] = RANGE["u64"]
RANGE["isize"] = RANGE["i64"]
RANGE["bool"] = (0, 1)
RANGE["char"] = (0, 0x10FFFF)


def tname(t):
    if t is None:
        return None
    if t[0] == "num":
        return t[1]
    return t[0]


# ---------------------------------------------------------------- program
class Prog:
    def __init__(self, paths):
        self.bodies = {}
        self.impls = []
        self.adts = {}
        self.crates = []
        self.names = {}
        for p in paths:
            d = json.load(open(p))
            self.crates.append(d["crate"])
            for b in d["bodies"]:
                b["crate"] = d["crate"]
                b["lty"] = None
                self.bodies[b["id"]] = b
                self.names.setdefault(b["name"], []).append(b["id"])
            for i in d["impls"]:
                i["self"] = cty(i["self"])
                i["a"] = tuple(cty(x) for x in i["a"])
                i["crate"] = d["crate"]
                self.impls.append(i)
            for k, v in d["adts"].items():
                if k not in self.adts or v.get("local"):
                    self.adts[k] = v
        self.impl_by_id = {i["id"]: i for i in self.impls}
        self.by_trait = {}
        for i in self.impls:
            self.by_trait.setdefault(i["trait"], []).append(i)
        for v in self.adts.values():
            for var in v["v"]:
                for f in var["f"]:
                    if f["t"] is not None:
                        f["t"] = cty(f["t"])

    def ltypes(self, b):
        if b["lty"] is None:
            b["lty"] = [cty(x) for x in b["locals"]]
        return b["lty"]

    def dom(self, ty):
        ty = unref(ty)
        if ty is None or ty[0] != "adt":
            return None
        a = self.adts.get(ty[1])
        if a is None or a["kind"] != "enum":
            return {OPT: (0, 1), RES: (0, 1), CF: (0, 1), POLL: (0, 1)}.get(ty[1])
        return tuple(v["d"] if v["d"] is not None else i for i, v in enumerate(a["v"]))

    def variant_discr(self, path, v):
        a = self.adts.get(path)
        if a is None or a["kind"] != "enum" or v >= len(a["v"]):
            return v
        d = a["v"][v]["d"]
        return v if d is None else d

    def discr_variant(self, path, d):
        a = self.adts.get(path)
        if a is None or a["kind"] != "enum":
            return d
        for i, v in enumerate(a["v"]):
            if (v["d"] if v["d"] is not None else i) == d:
                return i
        return d

    def nfields(self, path, v=0):
        a = self.adts.get(path)
        if a is None or v >= len(a["v"]):
            return None
        return len(a["v"][v]["f"])

    def field_index(self, path, name, v=0):
        a = self.adts.get(path)
        if a is None:
            return None
        for i, f in enumerate(a["v"][v]["f"]):
            if f["n"] == name:
                return i
        return None

    def field_type(self, ty, v, i):
        ty = unref(ty)
        if ty is None:
            return None
        if ty[0] == "tuple":
            return ty[1][i] if i < len(ty[1]) else None
        if ty[0] == "adt":
            a = self.adts.get(ty[1])
            if a is None or v >= len(a["v"]) or i >= len(a["v"][v]["f"]):
                return None
            return tsub(a["v"][v]["f"][i]["t"], ty[2])
        return None

    def find_impl(self, trait, selft, targs=None):
        """local impl of trait for a concrete type: (impl, substs)"""
        for i in self.by_trait.get(trait, []):
            s = {}
            ia = i["a"]
            if targs is not None and len(targs) == len(ia):
                ok = all(unify(a, b, s) for a, b in zip(ia, targs))
            else:
                ok = unify(i["self"], selft, s)
            if ok and not (i["self"][0] == "param" and selft is not None and selft[0] == "param"):
                n = i.get("ngen", 0)
                return i, tuple(s.get(j) for j in range(n))
        return None


class LoopCtx:
    _n = 0

    def __init__(self, span):
        LoopCtx._n += 1
        self.uid = LoopCtx._n
        self.span = span
        self.k = None
        self.n = None
        self.exc = FALSE

    def __repr__(self):
        return f"loop@{self.span}[k={self.k} n={self.n}]"


class Rec:
    """a logged call or a panic obligation"""
    __slots__ = ("kind", "name", "args", "guard", "res", "site", "loops", "fn", "idx", "extra", "post")

    def __init__(self, kind, name, args, guard, res, site, loops, fn, idx, extra=None):
        self.kind, self.name, self.args, self.guard, self.res = kind, name, args, guard, res
        self.site, self.loops, self.fn, self.idx, self.extra = site, loops, fn, idx, extra
        self.post = None

    def __repr__(self):
        return f"<{self.kind} {self.name} {self.args} if {self.guard} at {self.site}>"


class Limit(Exception):
    pass


def moved(b):
    """locals of a body that are moved out of as a whole"""
    m = b.get("moved")
    if m is None:
        m = set()

        def walk(x):
            if isinstance(x, (list, tuple)):
                if len(x) == 2 and x[0] == "move" and isinstance(x[1], (list, tuple)) and len(x[1]) == 2 and not x[1][1]:
                    m.add(x[1][0])
                for y in x:
                    walk(y)
        for bl in b["blocks"]:
            if not bl.get("cleanup"):
                walk(bl["s"])
                walk(bl["t"])
        b["moved"] = m
    return m


class Engine:
    def __init__(self, prog, fuel=400000):
        global ENG
        ENG = self
        self.prog = prog
        self.reset()
        self.fuel = fuel
        import models
        self.models = models.TABLE
        self.mod = models
        self.constmemo = {}
        self.opaque_seen = {}
        self.no_inline = set()
        self.max_depth = 60

    def reset(self):
        self.st = {}
        self.cur = TRUE
        self.ctx = TRUE
        self.log = []
        self.obl = []
        self.lvsol, self.lvterm = {}, {}
        self.rec = True
        self.loops = ()
        self.stack = []
        self.stack2 = []
        self.nframe = 0
        self.ncell = 0
        self.frames = {}
        self.nlv = 0
        terms.forget_local_types()
        self.lvinfo = {}
        self.steps = 0
        self.inlined = set()
        self.site = "?"

    # ------------------------------------------------------------ guards
    def abs(self):
        return And(self.ctx, self.cur)

    def known(self, n):
        """n as a number where the current path fixes it"""
        if n.op in ("int", "g"):
            return n
        g = self.abs()
        c, ts = lin_parts(n)
        for t, k in ts.items():
            ls = set()
            for y in subterms(g):
                if y.op == "g" and y.a[0] is t:
                    ls.update(l for l, _ in y.a[1] if isinstance(l, int) and not isinstance(l, bool))
            for l in ls:
                if And(g, Not(is_label(t, l))) is FALSE:
                    c += k * l
                    break
            else:
                return n
        return I(c)

    def feasible(self, g):
        return And(self.ctx, g) is not FALSE

    # ------------------------------------------------------------ cells & pointers
    def newcell(self, v):
        self.ncell += 1
        c = ("t", self.ncell)
        self.st[c] = v
        return c

    def ptr(self, cell, path=()):
        return mk("ptr", cell, path)

    def proj(self, v, e, ty=None):
        if v.op == "g":
            return apply(None, lambda x: self.proj(x, e, ty), v)
        if v is BOT:
            return BOT
        if v.op == "ptr":
            return self.proj(self.load(v), e, ty)
        k = e[0]
        if k == "f":
            i = e[1]
            if v.op in ("adt", "clo", "cor"):
                if v.op == "adt" and v.a[0] == "()" and len(v.a) == 2 and i > 0:
                    return BOT
                return v.a[2 + i] if 2 + i < len(v.a) else BOT
            if v.op == "updf":
                return v.a[2] if v.a[1] == i else self.proj(v.a[0], e, ty)
            r = self.mkfld(v, i)
            if ty is not None:
                settype(r, ty)
            elif r.op == "fld":
                base = r.a[0]
                vi = 0
                if base.op == "as":
                    vi = base.a[1]
                    base = base.a[0]
                bt = tyof(base)
                if bt is not None:
                    settype(r, self.prog.field_type(bt, vi, i))
            return r
        if k == "v":
            if v.op == "adt":
                return v if v.a[1] == e[1] else BOT
            t = unref(tyof(v))
            r = mk("as", v, e[1])
            return r
        if k == "k":
            r = nth(v, e[1])
            if ty is not None and r.op not in ("g",):
                settype(r, ty)
            return r
        if k == "sl":
            hi = e[2]
            if e[3]:
                hi = sub(ln(v), I(hi)) if hi else None
            else:
                hi = I(hi)
            return slice_(v, I(e[1]), hi)
        if k == "ke":
            return nth(v, sub(ln(v), I(e[1])))
        if k == "range":
            return slice_(v, e[1], e[2])
        if k == "alone":
            return lst([v])
        raise Limit("proj " + str(e))

    def mkfld(self, v, i):
        return mk("fld", v, i)

    def load(self, p):
        if p.op == "g":
            return apply(None, self.load, p)
        if p.op != "ptr":
            return p
        v = self.st.get(p.a[0], BOT)
        for e in p.a[1]:
            v = self.proj(v, e)
        if v.g:
            v = simp(self.abs(), v)
        return v

    def deep(self, v, memo=None):
        """replace pointers by the values they point to"""
        if not v.p:
            return v
        memo = {} if memo is None else memo
        r = memo.get(v)
        if r is not None:
            return r
        memo[v] = mk("cyc")
        if v.op == "ptr":
            r = self.deep(self.load(v), memo)
        else:
            def ra(a):
                return tuple(self.deep(x, memo) if isinstance(x, T) else ra(x) if isinstance(x, tuple) else x for x in a)
            if v.op == "g":
                r = case_on(v.a[0], {l: self.deep(c, memo) for l, c in v.a[1]}, self.deep(v.a[2], memo) if v.a[2] is not None else None)
            else:
                r = build(v.op, ra(v.a))
        memo[v] = r
        return r

    def store(self, p, val):
        if p.op == "g":
            for lits, q in paths(p):
                if q is BOT or q.op != "ptr":
                    continue
                g = TRUE
                for var, l in lits:
                    g = And(g, lit_of(var, l))
                old = self.load(q)
                self.store(q, select([(g, val), (Not(g), old)]))
            return
        if p.op != "ptr":
            if p is BOT or p.op == "uninit":
                return
            raise Limit("store through a pointer of unknown target: " + show(p)[:160])
        cell, path = p.a
        self.st[cell] = self.upd_path(self.st.get(cell, BOT), path, val)

    def upd_path(self, v, path, val):
        if not path or v.op == "uninit":
            return val
        if v.op == "g":
            return apply(None, lambda x: self.upd_path(x, path, val), v)
        if v.op == "ptr":
            self.store(mk("ptr", v.a[0], v.a[1] + path), val)
            return v
        e, rest = path[0], path[1:]
        if e[0] == "v":
            if v.op == "adt":
                return self.upd_path(v, rest, val) if v.a[1] == e[1] else v
            # opaque enum known to be in variant e[1]
            t = unref(tyof(v))
            if t is not None and t[0] == "adt":
                n = self.prog.nfields(t[1], e[1])
                if n is not None:
                    x = adt(t[1], e[1], *[self.proj(mk("as", v, e[1]), ("f", i)) for i in range(n)])
                    return self.upd_path(x, rest, val)
            if v is BOT:
                return v
            raise Limit("store into a variant of a value of unknown type: " + show(v)[:160] + " " + str(tyof(v.a[0].a[0]) if v.op=="fld" and v.a[0].op=="nth" else ""))
        if e[0] == "f":
            i = e[1]
            if v.op in ("adt", "clo", "cor"):
                a = list(v.a)
                while len(a) <= 2 + i:
                    a.append(BOT)
                a[2 + i] = self.upd_path(a[2 + i], rest, val)
                return mk(v.op, *a)
            t = unref(tyof(v))
            if v is not BOT and t is not None:
                n = self.prog.nfields(t[1]) if t[0] == "adt" else len(t[1]) if t[0] == "tuple" else None
                if n is not None and i < n:
                    x = adt(t[1] if t[0] == "adt" else "()", 0, *[self.proj(v, ("f", j)) for j in range(n)])
                    return self.upd_path(x, path, val)
            if v is BOT:
                return BOT
            return mk("updf", v, i, self.upd_path(self.proj(v, e), rest, val))
        if e[0] == "k":
            old = nth(v, e[1])
            return put(v, e[1], self.upd_path(old, rest, val))
        if e[0] == "ke":
            return put(v, sub(ln(v), I(e[1])), self.upd_path(self.proj(v, e), rest, val))
        if e[0] == "range":
            lo, hi = e[1], e[2]
            pre = take(v, lo)
            mid = slice_(v, lo, hi)
            post = drop(v, hi) if hi is not None else EMPTY
            return cat([mk("spr", pre), mk("spr", self.upd_path(mid, rest, val)), mk("spr", post)])
        if e[0] == "alone":
            return nth(self.upd_path(lst([v]), rest, val), ZERO)
        if e[0] == "map":
            return mk("mapput", v, e[1], val)
        raise Limit("store path " + str(e))

    # ------------------------------------------------------------ places / operands
    def place(self, fr, pl):
        """(pointer term, type)"""
        loc, projs = pl
        cell = (fr.uid, loc)
        p = mk("ptr", cell, ())
        ty = fr.ty(loc)
        for e in projs:
            if e == "deref" or e[0] == "deref":
                v = self.load(p)
                if v.op == "ptr":
                    p = v
                elif v.op == "g" and any(x.op == "ptr" for x in leaves(v)):
                    p = v
                ty = deref_ty(ty)
                continue
            k = e[0]
            if k == "field":
                ne = ("f", e[1])
                ty = tsub(cty_c(e[2]), fr.subs)
            elif k == "downcast":
                ne = ("v", e[1])
            elif k == "index":
                idx = self.st.get((fr.uid, e[1]), BOT)
                ne = ("k", idx)
                ty = seqs.elem_type(ty)
            elif k == "cindex":
                if e[3]:
                    ne = ("ke", e[1])
                else:
                    ne = ("k", I(e[1]))
                ty = seqs.elem_type(ty)
            elif k == "subslice":
                ne = ("sl", e[1], e[2], e[3])
                ty = ("slice", seqs.elem_type(ty))
            else:
                ne = ("f", 0)
            p = self.ext(p, ne)
        return p, ty

    def ext(self, p, e):
        if p.op == "g":
            return apply(None, lambda x: self.ext(x, e) if x.op == "ptr" else x, p)
        return mk("ptr", p.a[0], p.a[1] + (e,))

    def read(self, fr, pl):
        p, ty = self.place(fr, pl)
        v = self.load(p)
        if ty is not None and v.op not in ("g", "int", "adt", "lin", "cat", "true", "false", "bot", "ptr"):
            settype(v, ty)
        if ty is not None and ty[0] == "bool" and v.op not in ("g", "true", "false", "bot"):
            v = boolify(v)
        if v.g:
            v = simp(self.abs(), v)
        return v, ty

    def operand(self, fr, o):
        k = o[0]
        if k in ("copy", "move"):
            return self.read(fr, o[1])
        if k == "const":
            return self.const(fr, o[1])
        return FALSE, ("bool",)

    def const(self, fr, c):
        if c["k"] == "fn":
            t = tsub(cty_c(c["t"]), fr.subs)
            return mk("fn", t), t
        if c["k"] == "cparam":
            n = c.get("n")
            t = tsub(("cparam", n, c.get("i", 0)), fr.subs)
            if t[0] == "cval":
                return I(t[1]), ("num", "usize")
            return settype(mk("cp", n), ("num", "usize")), ("num", "usize")
        t = tsub(cty_c(c.get("t")), fr.subs) if c.get("t") else None
        v = self.constval(c.get("v"), t, c)
        if "named" in c and v is None:
            v = self.named_const(c, fr, t)
        if v is None:
            nm = c.get("named", {}).get("p") or json.dumps(c, sort_keys=True)[:200]
            v = settype(mk("kst", nm), t)
        if t is not None and t[0] == "bool":
            v = boolify(v)
        return v, t

    def named_const(self, c, fr, t):
        p = c["named"]["p"]
        if p in self.prog.bodies:
            subs = tuple(tsub(cty_c(x), fr.subs) for x in c["named"].get("a", []))
            return self.eval_const_body(p, subs)
        return None

    def eval_const_body(self, p, subs=()):
        key = (p, subs)
        if key not in self.constmemo:
            self.constmemo[key] = mk("kst", p)
            sv = (self.st, self.cur, self.ctx, self.rec, self.loops)
            self.st, self.cur, self.ctx, self.rec, self.loops = {}, TRUE, TRUE, False, ()
            try:
                r = self.deep(self.run_body(p, subs, []))
            finally:
                self.st, self.cur, self.ctx, self.rec, self.loops = sv
            self.constmemo[key] = r
        return self.constmemo[key]

    def constval(self, v, t, c=None):
        if v is None:
            return None
        k = v.get("k")
        if k == "int":
            x = v["v"]
            vt = cty_c(v.get("t")) if v.get("t") else t
            if vt is not None and vt[0] == "bool":
                return TRUE if x else FALSE
            if vt is not None and vt[0] == "num" and vt[1] in ("f64", "f32"):
                return mk("float", struct.unpack("<d", struct.pack("<Q", x))[0] if vt[1] == "f64" else struct.unpack("<f", struct.pack("<I", x))[0])
            return I(x)
        if k == "str":
            return S(v["v"])
        if k == "bytes":
            return bytes_(v["v"])
        if k == "arr":
            xs = [self.constval(x, None) for x in v["v"]]
            if any(x is None for x in xs):
                return None
            return lst(xs)
        if k == "tup":
            xs = [self.constval(x, None) for x in v["v"]]
            return None if any(x is None for x in xs) else tup(*xs)
        if k == "struct":
            xs = [self.constval(x, None) for x in v["v"]]
            if any(x is None for x in xs):
                return None
            vt = cty_c(v["t"]) if v.get("t") else unref(t)
            if len(xs) == 1 and vt[0] != "adt":
                return xs[0]
            return adt(vt[1], 0, *xs)
        if k == "variant":
            vt = cty_c(v["t"]) if v.get("t") else unref(t)
            return adt(vt[1], v["i"])
        if k == "zst":
            if t is not None:
                if t[0] == "fndef":
                    return mk("fn", t)
                if t[0] == "tuple":
                    return UNIT
                if t[0] == "closure":
                    return mk("clo", t[1], t[2])
                if t[0] == "adt":
                    a = self.prog.adts.get(t[1])
                    if a is None or a["kind"] == "struct":
                        return adt(t[1], 0)
            return UNIT
        if k == "static":
            return mk("static", v["p"])
        if k == "fnptr":
            tt = ("fndef", v["p"], v.get("name", v["p"]), tuple(cty_c(x) for x in v.get("a", [])))
            return mk("fn", tt)
        return None

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, rv, dty):
        k = rv[0]
        if k == "use":
            return self.operand(fr, rv[1])[0]
        if k == "ref":
            p, ty = self.place(fr, rv[2])
            if rv[1] in ("mut", "raw"):
                if rv[1] == "raw":
                    v = self.load(p)
                    return p
                return p
            v = self.load(p)
            if ty is not None:
                settype(v, ty) if v.op not in ("ptr",) else None
                if ty[0] == "bool" and v.op not in ("g", "true", "false", "bot"):
                    v = boolify(v)
            return v
        if k == "cast":
            v, sty = self.operand(fr, rv[2])
            return self.cast(rv[1], v, sty, tsub(cty_c(rv[3]), fr.subs))
        if k == "bin":
            a, ta = self.operand(fr, rv[2])
            b, tb = self.operand(fr, rv[3])
            return self.binop(rv[1], a, b, ta, tb)
        if k == "un":
            a, ta = self.operand(fr, rv[2])
            if rv[1] == "Not":
                if ta is not None and ta[0] == "bool":
                    return Not(boolify(a))
                return settype(mk("not", a), ta)
            if rv[1] == "Neg":
                return sub(ZERO, a)
            if rv[1] == "PtrMetadata":
                return self.length(a)
            return mk("un", rv[1], a)
        if k == "discr":
            v, ty = self.read(fr, rv[1])
            return self.discr(v, ty)
        if k == "agg":
            ops = [self.operand(fr, o)[0] for o in rv[2]]
            kk = rv[1]["k"]
            if kk == "array":
                return lst(ops)
            if kk == "tuple":
                return tup(*ops)
            if kk == "adt":
                return adt(rv[1]["p"], rv[1]["v"], *ops)
            if kk in ("closure", "coroutine"):
                subs = tuple(tsub(cty_c(x), fr.subs) for x in rv[1]["a"])
                return mk("clo" if kk == "closure" else "cor", rv[1]["p"], subs, *ops)
            return mk("agg", kk, *ops)
        if k == "repeat":
            v, _ = self.operand(fr, rv[1])
            n = tsub(cty_c(rv[2]), fr.subs)
            if n[0] == "cval":
                return rep(v, I(n[1]))
            if n[0] == "cparam":
                return rep(v, settype(mk("cp", n[1]), ("num", "usize")))
            return rep(v, mk("kst", str(n)))
        if k == "len":
            v, ty = self.read(fr, rv[1])
            return ln(v)
        return mk("rv", json.dumps(rv)[:100])

    def length(self, v):
        v = self.load(v) if v.op in ("ptr", "g") else v
        return ln(v)

    def discr(self, v, ty=None):
        if v.op == "g":
            return apply(None, lambda x: self.discr(x, ty), v)
        if v.op == "ptr":
            return self.discr(self.load(v), ty)
        if v is BOT:
            return BOT
        if v.op == "adt":
            return I(self.prog.variant_discr(v.a[0], v.a[1]))
        if v.op in ("true", "false"):
            return b2i(v)
        t = ty or tyof(v)
        d = self.prog.dom(t)
        if d is None:
            d = self.prog.dom(tyof(v))
        return mk("discr", v, d)

    def cast(self, kind, v, sty, dty):
        if v.op == "g":
            return apply(None, lambda x: self.cast(kind, x, sty, dty), v)
        if v is BOT:
            return BOT
        if kind.startswith("PointerCoercion") or kind.startswith("PtrToPtr") or kind == "Transmute":
            return v
        if kind.startswith("IntToInt"):
            return self.intcast(v, tname(unref(sty)) if sty else None, tname(dty))
        dn = tname(dty)
        if kind == "FloatToInt" and v.op == "float" and dn in INTR:
            f = v.a[0]
            return I(0 if f != f else int(min(max(f, INTR[dn][0]), INTR[dn][1])))
        if kind == "IntToFloat" and dn == "f64" and v.op == "int":
            return mk("float", float(v.a[0]))
        r = mk("fcast", kind, tname(dty) or str(dty), v)
        return settype(r, dty)

    def intcast(self, v, s, d):
        if v.op == "g":
            return apply(None, lambda x: self.intcast(x, s, d), v)
        if v is BOT:
            return v
        if v.op in ("true", "false"):
            return b2i(v)
        if d not in RANGE:
            return mk("cast", d, v)
        lo, hi = RANGE[d]
        if v.op == "int":
            n = v.a[0]
            if lo <= n <= hi:
                return v
            w = hi - lo + 1
            return I((n - lo) % w + lo)
        if s in RANGE and RANGE[s][0] >= lo and RANGE[s][1] <= hi:
            return v
        if v.op == "discr" and v.a[1] is not None and all(lo <= x <= hi for x in v.a[1]):
            return v
        if v.op == "cast" and RANGE[v.a[0]][0] >= lo and RANGE[v.a[0]][1] <= hi:
            return v
        if v.op == "and" and any(x.op == "int" and 0 <= x.a[0] <= hi for x in v.a):
            return v
        b = self.smallrange(v)
        if b is not None and lo <= b[0] and b[1] <= hi:
            return v
        return mk("cast", d, v)

    def smallrange(self, v):
        return terms.range_of(v)

    def binop(self, op, a, b, ta, tb):
        isb = ta is not None and ta[0] == "bool"
        if tname(ta) in ("f32", "f64", "f16", "f128"):
            return fbin(op, a, b, ta)
        base = op
        for suf in ("WithOverflow", "Unchecked"):
            if op.endswith(suf):
                base = op[:-len(suf)]
        if base in ("Add", "Sub", "Mul"):
            tn = tname(ta)
            r = {"Add": add, "Sub": sub, "Mul": mul}[base](a, b)
            if op.endswith("WithOverflow"):
                return tup(r, self.overflow(r, tn, base, a, b))
            return r
        if base in ("Eq", "Ne"):
            if isb:
                a, b = boolify(a), boolify(b)
            e = eq(self.deep(a), self.deep(b))
            return e if base == "Eq" else Not(e)
        if base == "Lt":
            return lt(a, b)
        if base == "Gt":
            return lt(b, a)
        if base == "Le":
            return le(a, b)
        if base == "Ge":
            return le(b, a)
        if base == "Cmp":
            return self.cmp3(a, b)
        if isb and base in ("BitAnd", "BitOr", "BitXor"):
            a, b = boolify(a), boolify(b)
            if base == "BitAnd":
                return And(a, b)
            if base == "BitOr":
                return Or(a, b)
            return Or(And(a, Not(b)), And(Not(a), b))
        if base in ("BitAnd", "BitOr", "BitXor", "Div", "Rem", "Shl", "Shr"):
            nm = {"BitAnd": "and", "BitOr": "or", "BitXor": "xor", "Div": "div", "Rem": "rem", "Shl": "shl", "Shr": "shr"}[base]
            r = apply(("bin", nm, tname(ta)), lambda x, y: self.intop(nm, x, y, ta), a, b)
            if op.endswith("WithOverflow"):
                bits = {"8": 8, "16": 16, "32": 32, "64": 64, "128": 128, "size": 64}.get((tname(ta) or "u64").lstrip("ui"), 64)
                return tup(r, Not(And(le(ZERO, b), lt(b, I(bits)))))
            return r
        if base == "Offset":
            return add(a, b)
        return mk("bin", op, a, b)

    def intop(self, nm, x, y, ta):
        if x is BOT or y is BOT:
            return BOT
        if x.op == "int" and y.op == "int":
            p, q = x.a[0], y.a[0]
            if nm == "and":
                return I(p & q)
            if nm == "or":
                return I(p | q)
            if nm == "xor":
                return I(p ^ q)
            if nm == "div" and q:
                return I(int(p / q) if abs(p) < 2**50 and abs(q) < 2**50 else p // q)
            if nm == "rem" and q:
                return I(p - q * int(p / q) if abs(p) < 2**50 and abs(q) < 2**50 else p % q)
            if nm == "shl" and 0 <= q < 128:
                lo, hi = RANGE.get(tname(ta), (0, 2**128))
                return I((p << q) & hi if lo == 0 else p << q)
            if nm == "shr" and 0 <= q < 128:
                return I(p >> q)
        if nm in ("and", "or", "xor") and y.id < x.id:
            x, y = y, x
        if nm in ("or", "xor") and ZERO in (x, y):
            return x if y is ZERO else y
        if nm in ("shl", "shr") and y is ZERO:
            return x
        if nm == "div" and y is ONE:
            return x
        if nm == "shr" and y.op == "int" and nonneg(x):
            nm, y = "div", I(2 ** y.a[0])
        if nm == "and" and nonneg(x) and nonneg(y):
            for p, q in ((x, y), (y, x)):
                if q.op == "int" and q.a[0] in (1, 3, 7, 15, 31, 63, 127, 255):
                    return self.intop("rem", p, I(q.a[0] + 1), ta)
        if nm in ("div", "rem") and y.op == "int" and y.a[0] > 1 and x.op == "lin" and nonneg(x):
            # multiples of the divisor
            d = y.a[0]
            c, ts = lin_parts(x)
            q = mk_lin(c // d, {t: k // d for t, k in ts.items() if k // d})
            r = mk_lin(c % d, {t: k % d for t, k in ts.items() if k % d})
            if nm == "rem":
                return r if r.op == "int" else settype(mk(nm, r, y), ta)
            return q if r.op == "int" else add(q, settype(mk(nm, r, y), ta))
        if nm == "xor" and ONE in (x, y):
            z = y if x is ONE else x
            if z.op == "lin" and nonneg(z) and all(k % 2 == 0 for _, k in z.a[1]):
                return sub(z, ONE) if z.a[0] % 2 else add(z, ONE)
        if nm == "or":
            m = mosaic(x, y, ta)
            if m is not None:
                return m
        return settype(mk(nm, x, y), ta)

    def overflow(self, r, tn, base, a, b):
        if base == "Add" and tn in ("usize", "u64") and a is not None and b is not None and all(small(x) for y in (a, b) for x in leaves(y)):
            return FALSE        # two lengths of what is in memory, each at most isize::MAX

        def f(r):
            if r is BOT:
                return BOT
            rg = RANGE.get(tn)
            if rg is None:
                return FALSE
            if r.op == "int":
                return FALSE if rg[0] <= r.a[0] <= rg[1] else TRUE
            return boolify(mk("ovf", tn, r))
        return apply(None, f, r)

    def cmp3(self, a, b):
        l = lt(a, b)
        e = eq(a, b)
        return select([(l, adt(ORD, 0)), (And(Not(l), e), adt(ORD, 1)), (And(Not(l), Not(e)), adt(ORD, 2))])

    # ------------------------------------------------------------ forks
    def fork(self, alts):
        """alts: [(guard, thunk)]; runs each under its guard and joins"""
        base_st, base_cur, base_ctx = self.st, self.cur, self.ctx
        a = self.abs()
        res = []
        for g, th in alts:
            c = And(a, g)
            if c is FALSE or g is FALSE or g is BOT:
                continue
            self.st = dict(base_st)
            self.ctx = c
            self.cur = TRUE
            v = th()
            gg = And(g, self.cur)
            if gg is not FALSE and And(c, self.cur) is not FALSE:
                res.append((gg, v, self.st))
        self.ctx = base_ctx
        if not res:
            self.st = base_st
            self.cur = FALSE
            return BOT
        self.st = merge([(g, s) for g, v, s in res])
        tot = FALSE
        for g, v, s in res:
            tot = Or(tot, g)
        self.cur = And(base_cur, tot)
        return select([(g, v) for g, v, s in res])

    def payload(self, v, variant, i=0):
        return self.proj(self.proj(v, ("v", variant)), ("f", i))

    def match(self, v, ty, arms):
        """arms: {variant index: fn()}; v an enum value"""
        v = self.load(v) if v.op == "ptr" else v
        d = self.discr(v, ty)
        path = None
        t = unref(ty or tyof(v))
        if t is not None and t[0] == "adt":
            path = t[1]
        return self.fork([(is_label(d, self.prog.variant_discr(path, k) if path else k), th) for k, th in arms.items()])

    # ------------------------------------------------------------ logging
    def logcall(self, name, args, res, kind="call", extra=None):
        if not self.rec:
            return None
        r = Rec(kind, name, args, self.abs(), res, self.site, self.loops, self.stack[-1] if self.stack else None, len(self.log), extra)
        self.log.append(r)
        return r

    def panic(self, cond, kind, detail=()):
        """cond: guard under which the code panics; continues under its negation"""
        if cond is BOT:
            cond = FALSE
        bad = And(self.abs(), cond)
        if bad is not FALSE and bad is not BOT and self.rec:
            self.obl.append(Rec("panic", kind, detail, bad, None, self.site, self.loops, tuple(self.stack), len(self.obl)))
        if kind != "overflow":
            self.cur = And(self.cur, Not(cond))

    # ------------------------------------------------------------ bodies
    def run_body(self, bid, subs, args):
        b = self.prog.bodies[bid]
        self.nframe += 1
        fr = Frame(self, b, subs, self.nframe)
        self.inlined.add(bid)
        for i, a in enumerate(args):
            ty = fr.ty(i + 1)
            if ty is not None and ty[0] == "bool" and a.op not in ("g", "true", "false", "bot", "ptr"):
                a = boolify(a)
            self.st[(fr.uid, i + 1)] = a
        if not b["blocks"]:
            return mk("kst", bid)
        base_ctx, base_cur = self.ctx, self.cur
        self.ctx = self.abs()
        self.cur = TRUE
        self.stack.append(bid)
        self.stack2.append((bid, tuple(subs)))
        try:
            nodes = fr.nodes()
            exits = self.region(fr, nodes, 0, None, TRUE, self.st)
        finally:
            self.stack.pop()
            self.stack2.pop()
        rets = exits.get("ret", [])
        self.ctx = base_ctx
        if not rets:
            self.cur = FALSE
            return BOT
        self.st = merge(rets)
        tot = FALSE
        for g, s in rets:
            tot = Or(tot, g)
        self.cur = And(base_cur, tot)
        ret = self.st.get((fr.uid, 0), UNIT if fr.ty(0) == ("tuple", ()) else BOT)
        # drop the frame's cells nobody points to any more
        keep = set()
        todo = [ret] + [v for c, v in self.st.items() if c[0] != fr.uid and v.p]
        todo += [a for a in args if a.p]
        while todo:
            v = todo.pop()
            if not v.p:
                continue
            for x in subterms(v):
                if x.op == "ptr" and x.a[0] not in keep:
                    keep.add(x.a[0])
                    y = self.st.get(x.a[0])
                    if y is not None:
                        todo.append(y)
        for c in [c for c in self.st if c[0] == fr.uid and c not in keep]:
            del self.st[c]
        rt = fr.ty(0)
        if rt is not None and rt[0] == "bool":
            ret = boolify(ret)
        return ret

    def region(self, fr, nodes, entry, header, g0, st0):
        """evaluate the sub-graph `nodes` from entry; edges to header are not followed"""
        pend = {entry: [(g0, st0)]}
        exits = {}

        def emit(t, g, s):
            if t is None or not self.feasible(g):
                return
            if t in nodes and t != header:
                pend.setdefault(t, []).append((g, s))
            else:
                exits.setdefault(t, []).append((g, s))
        for comp in fr.sccs(nodes, entry, header):
            hd = [n for n in comp if n in pend]
            if not hd:
                continue
            if len(comp) == 1 and not fr.selfloop(comp[0], header):
                n = comp[0]
                inc = pend.pop(n)
                g, s = join(inc)
                if not self.feasible(g):
                    continue
                for t, g2, s2 in self.block(fr, n, g, s):
                    emit(t, g2, s2)
            else:
                h = hd[0]
                cs = frozenset(comp)
                inc = pend.pop(h)
                g, s = join(inc)
                for o in hd[1:]:
                    pend.pop(o)
                if not self.feasible(g):
                    continue
                base_ctx = self.ctx
                self.ctx = And(base_ctx, g)
                sp = fr.b["blocks"][h]["sp"]

                def runner(st):
                    ex = self.region(fr, cs, h, h, TRUE, st) if not self._first(fr, h, cs) else None
                    back = ex.pop(h, [])
                    return back, [(t, gg, ss) for t, l in ex.items() for gg, ss in l]
                res = self.solve_loop(s, runner, sp)
                self.ctx = base_ctx
                for t, g2, s2 in res:
                    emit(t, And(g, g2), s2)
        return exits

    def _first(self, fr, h, cs):
        return False

    def block(self, fr, n, g, st):
        self.steps += 1
        if self.steps > self.fuel:
            raise Limit("analysis budget exhausted")
        b = fr.b["blocks"][n]
        self.st = dict(st)
        self.cur = g
        fr_uid = fr.uid
        for s in b["s"]:
            if s[0] == "assign":
                self.site = s[3]
                rv = s[2]
                if rv[0] == "ref" and rv[1] == "fake":
                    continue
                v = self.rvalue(fr, rv, None)
                self.assign(fr, s[1], v)
            elif s[0] == "setdiscr":
                pass
        t = b["t"]
        self.site = b["sp"]
        k = t[0]
        if k == "goto":
            return [(t[1], self.cur, self.st)]
        if k == "return":
            return [("ret", self.cur, self.st)]
        if k in ("unreachable", "dead"):
            return []
        if k == "drop":
            self.ondrop(fr, t[2])
            return [(t[1], self.cur, self.st)]
        if k == "yield":
            self.assign(fr, t[2], mk("resume"))
            return [(t[1], self.cur, self.st)]
        if k == "switch":
            v, ty = self.operand(fr, t[1])
            return self.switch(v, ty, t[2], t[3])
        if k == "assert":
            c, _ = self.operand(fr, t[1])
            c = boolify(c)
            if not t[2]:
                c = Not(c)
            m = t[3]
            kind = m[0]
            det = []
            for x in m[1:]:
                det.append(self.operand(fr, x)[0] if isinstance(x, list) else x)
            if kind == "other" and ("misalign" in str(m) or True) and c is TRUE:
                pass
            self.panic(Not(c), kind, tuple(det))
            return [(t[4], self.cur, self.st)]
        if k == "call":
            r = self.call(fr, t)
            if t[4] is None or self.cur is FALSE:
                return []
            self.assign(fr, t[3], r)
            return [(t[4], self.cur, self.st)]
        raise Limit("terminator " + k)

    def ondrop(self, fr, pl):
        """the end of a lock guard that still owns its lock (drops in this MIR are not elaborated: a local
        that is moved from somewhere counts as moved)"""
        loc, projs = pl
        if projs:
            return
        t = fr.ty(loc)
        if t is not None and t[0] == "adt" and t[1].endswith("Guard") and loc not in moved(fr.b):
            self.logcall(t[1], (self.st.get((fr.uid, loc), BOT),), None, kind="release")

    def assign(self, fr, pl, v):
        loc, projs = pl
        if not projs:
            self.st[(fr.uid, loc)] = v
            return
        p, ty = self.place(fr, pl)
        self.store(p, v)

    def switch(self, v, ty, targets, other):
        out = []
        rest = TRUE
        tn = tname(ty)
        if ty is not None and ty[0] == "bool":
            v = boolify(v)
        for val, bb in targets:
            if tn in RANGE and tn.startswith("i") and val > RANGE[tn][1]:
                # raw bits of a negative label; discriminants keep the raw form
                if not any(x.op == "discr" or x.op == "int" and x.a[0] == val for x in leaves(v)):
                    val -= RANGE[tn][1] - RANGE[tn][0] + 1
            l = is_label(v, val)
            if l is BOT:
                continue
            gg = And(self.cur, l)
            rest = And(rest, Not(l))
            out.append((bb, gg, self.st))
        if other is not None:
            out.append((other, And(self.cur, rest), self.st))
        return [(b, g, s) for b, g, s in out if g is not FALSE and g is not BOT]

    # ------------------------------------------------------------ loops
    def lv(self, init, ty=None):
        self.nlv += 1
        l = mk("lv", self.nlv)
        if ty is None:
            ty = guess_ty(init)
        settype(l, ty)
        return l

    def solve_loop(self, st0, runner, span):
        """runner(state) -> (back [(g,st)], exits [(key,g,st)]).
        returns exits [(key, guard, state)] of the whole loop."""
        rec = self.rec
        # 1. does it iterate at all?
        self.rec = False
        back, exits = runner(dict(st0))
        self.rec = rec
        if not back:
            if rec:
                back, exits = runner(dict(st0))
            return exits
        fed = self.fed_cell(st0, back)
        if fed is not None:
            return self.feed_loop(st0, runner, fed)
        # 2. unroll over short literal sequences
        if self.unrollable(st0, back):
            out = []
            acc = TRUE
            st = dict(st0)
            ctx = self.ctx
            for _ in range(140):
                self.ctx = And(ctx, acc)
                b, e = runner(dict(st))
                out += [(k, And(acc, g), s) for k, g, s in e]
                if not b:
                    self.ctx = ctx
                    return out
                g, st = join(b)
                acc = And(acc, g)
            self.ctx = ctx
        # 3. generalise the state to a loop invariant shape
        lvs = {}
        H = dict(st0)
        self.rec = False
        saved_lv = self.nlv
        for it in range(12):
            back, exits = runner(dict(H))
            if not back:
                break
            gb, Sb = join(back)
            changed = False
            for c in list(H):
                x = Sb.get(c, BOT)
                if x is BOT:
                    continue
                nh = self.gen(H[c], x, lvs, 0, it > 6, c)
                if nh is not H[c]:
                    H[c] = nh
                    changed = True
            if not changed:
                break
        self.rec = rec
        lc = LoopCtx(span)
        nlog, nobl = len(self.log), len(self.obl)
        self.loops = self.loops + (lc,)
        back, exits = runner(dict(H))
        self.loops = self.loops[:-1]
        if not back:
            return exits
        gb, Sb = join(back)
        binds = {}
        for c in H:
            x = Sb.get(c, BOT)
            self.bind(H[c], x if x is not BOT else H[c], binds)
        return self.close_loop(lc, lvs, binds, gb, exits, nlog, nobl)

    def fed_cell(self, st0, back):
        """the cell of an iterator over places that can only be stepped through one part at a time"""
        g, Sb = join(back)
        for c, v in st0.items():
            if v.op == "adt" and v.a[0] == "ITER" and v.a[3] is ZERO and gappy(v.a[2]) and Sb.get(c, BOT) not in (v, BOT):
                return c
        return None

    def feed_loop(self, st0, runner, cell):
        """a loop whose head takes the next of a filtered or concatenated sequence of places:
        each element is put before the loop body in turn, and the end once"""
        seq = st0[cell].a[2]
        keys = []
        base_st = self.st
        self.st = dict(st0)
        rest = mk("sym", "unread", ("num", "usize"))

        def body(x):
            fed = adt("ITER", 0, cat([one(x), mk("spr", rest)]), ZERO)
            st = dict(self.st)
            st[cell] = fed
            cur = self.cur
            back, exits = runner(st)
            self.cur = cur
            done = adt("ITER", 0, fed.a[2], ONE)
            for g, s in back:
                if s.get(cell) is not done:
                    raise Limit("a loop that takes several elements of a filtered sequence of places at once: " + show(s.get(cell))[:200])
            states, stop, vals = list(back), FALSE, []
            for k, g, s in exits:
                if k not in keys:
                    keys.append(k)
                states.append((g, s))
                stop = Or(stop, g)
                vals.append((g, I(keys.index(k))))
            if not states:
                self.cur = FALSE
                return FALSE, BOT
            tot = FALSE
            for g, s in states:
                tot = Or(tot, g)
            self.st = merge(states)
            self.st[cell] = st0[cell]
            self.cur = And(self.cur, tot)
            return stop, select(vals) if vals else BOT
        cur, ctx = self.cur, self.ctx
        self.cur = TRUE
        stop, val = self.iterate(seq, body, ZERO, True)
        alive = self.cur
        self.cur = cur
        out = []
        for i, k in enumerate(keys):
            g = And(And(alive, stop), eq(val, I(i)) if len(keys) > 1 else TRUE)
            if g is not FALSE:
                s = dict(self.st)
                s[cell] = it_spent()
                out.append((k, g, s))
        g = And(alive, Not(stop))
        if g is not FALSE:
            self.ctx = And(ctx, g)
            s = dict(self.st)
            s[cell] = adt("ITER", 0, EMPTY, ZERO)
            back, exits = runner(s)
            self.ctx, self.cur = ctx, cur
            if back:
                raise Limit("a loop that goes on after the end of the sequence it runs over")
            out += [(k, And(g, h), s2) for k, h, s2 in exits]
        self.st = base_st
        return out

    def unrollable(self, st0, back):
        g, Sb = join(back)
        for c, v in st0.items():
            if v.op == "adt" and v.a[0] in ("ITER", "ITERMUT") and v.a[3].op == "int" and few(v.a[2]) is not None:
                w = Sb.get(c, BOT)
                if w is not v and w is not BOT:
                    return True
            if v.op == "int" and c[0] == "cnt" and Sb.get(c) is not v:
                pass
        return False

    def local_type(self, c):
        """the declared type of a local of a frame: a number, or a sequence"""
        fr = self.frames.get(c[0]) if isinstance(c, tuple) and len(c) == 2 else None
        if fr is None or not isinstance(c[1], int) or c[1] >= len(fr.lt):
            return None
        t = fr.ty(c[1])
        return t if t is not None and not has_param(t) and (t[0] == "num" or elem_type(t) is not None and t[0] != "ref") else None

    def gen(self, h, x, lvs, d, force=False, cell=None):
        if h is x or x is BOT:
            return h
        if h in lvs:
            return h
        if h.op in ("adt", "clo") and x.op == h.op and h.a[:2] == x.a[:2] and len(h.a) == len(x.a) and d < 6:
            return mk(h.op, h.a[0], h.a[1], *[self.gen(p, q, lvs, d + 1) for p, q in zip(h.a[2:], x.a[2:])])
        if h.op == "ptr" and x.op == "ptr":
            pass
        init = subst(h, lvs) if lvs else h
        l = self.lv(init, cell and self.local_type(cell) or tyof(h) or guess_ty(init) or guess_ty(x))
        lvs[l] = init
        return l

    def bind(self, h, x, b):
        if h.op == "lv":
            b[h] = x
        elif h.op in ("adt", "clo") and x.op == h.op and len(h.a) == len(x.a):
            for p, q in zip(h.a[2:], x.a[2:]):
                self.bind(p, q, b)

    def close_loop(self, lc, lvs, binds, gb, exits, nlog, nobl):
        mine = set(l for l in lvs if l in binds)
        back = {l: simp(gb, select([(gb, binds[l])])) for l in mine}
        # --- driving counter
        drv = None
        for v in sorted(gvars(gb), key=order):
            if v.op not in ("lt", "b", "discr", "eq"):
                continue
            if v.op != "lt":
                continue
            for c in sorted(mine):
                if not (lvs[c].op in ("int", "lin") or nonneg(lvs[c]) or tyof(c) is not None and tyof(c)[0] == "num"):
                    continue
                if not has(v, c):
                    continue
                d = select([(gb, sub(back[c], c))])
                if d is not ONE:
                    continue
                A, B = v.a
                for side in (0, 1):
                    x = sub((A, B)[side], c)
                    if x.op == "g" or any(has(x, l) for l in mine) or any(has((A, B)[1 - side], l) for l in mine):
                        continue
                    must1 = restrict(gb, [(v, 0)]) is FALSE
                    must0 = restrict(gb, [(v, 1)]) is FALSE
                    if side == 0 and must1:
                        drv = (c, v, 1, sub(B, x))
                    elif side == 1 and must0:
                        drv = (c, v, 0, add(sub(A, x), ONE))
                    if drv:
                        break
                if drv:
                    break
            if drv:
                break
        if drv is None:
            return self.close_while(lc, lvs, back, gb, exits, nlog, nobl, mine)
        c, v, cont, N = drv
        k = settype(mk("k", lc.uid), ("num", "usize"))
        init_c = lvs[c]
        n = sub(N, init_c)
        lc.k, lc.n = k, n
        sg = {c: add(init_c, k)}
        # --- normal exits and early exits
        norm, early = [], []
        for t, g, s in exits:
            g0 = restrict(g, [(v, 1 - cont)])
            g1 = restrict(g, [(v, cont)])
            if g0 is not FALSE:
                norm.append((t, g0, s))
            if g1 is not FALSE:
                early.append((t, g1, s))
        gc = restrict(gb, [(v, cont)])
        B = {l: subst(restrict(select([(gc, restrict(back[l], [(v, cont)]))]), [(v, cont)]), sg) for l in mine if l is not c}
        sol = {c: add(init_c, k)}
        todo = set(B)
        prog = True
        at = {}
        while todo and prog:
            prog = False
            for a in sorted(todo):
                b = subst(B[a], {l: at[l] for l in at})
                others = [l for l in todo if l is not a and has(b, l)]
                if others:
                    continue
                f = self.closed(a, lvs[a], b, k)
                if f is None:
                    continue
                at[a] = f
                todo.discard(a)
                prog = True
        if todo:
            rest = sorted(todo)
            bodies = [subst(B[a], at) for a in rest]
            bundle = mk("adt", "()", 0, *bodies)
            lm = lam([k] + rest, bundle)
            inits = tuple(lvs[a] for a in rest)
            for j, a in enumerate(rest):
                at[a] = settype(b_fold(j, k, lm, inits), tyof(a))
                self.lvinfo[a] = None
        full = dict(at)
        full[c] = add(init_c, k)
        self.lvsol.update(full)
        memo = {}
        E = FALSE
        for t, g, s in early:
            E = Or(E, g)
        E = subst(E, full)
        lc.exc = E
        # --- rewrite what was recorded inside the loop in terms of k
        for r in self.log[nlog:]:
            r.args = tuple(subst(x, full) if isinstance(x, T) else x for x in r.args)
            r.guard = subst(r.guard, full)
            r.res = subst(r.res, full) if isinstance(r.res, T) else r.res
            if isinstance(r.extra, T):
                r.extra = subst(r.extra, full)
            for lc2 in r.loops:
                pass
        seen = set()
        for r in self.log[nlog:] + self.obl[nobl:]:
            for lc2 in r.loops:
                if lc2 is not lc and lc2.uid > lc.uid and lc2 not in seen:
                    seen.add(lc2)
                    if lc2.n is not None:
                        lc2.n = subst(lc2.n, full)
        for r in self.obl[nobl:]:
            r.args = tuple(subst(x, full) if isinstance(x, T) else x for x in r.args)
            r.guard = subst(r.guard, full)
        out = []
        if E is FALSE:
            ex = FALSE
        else:
            lm = lam([k], E)
            ex = exists(n, lm)
        fin = {l: subst(x, {k: n}) for l, x in full.items()}
        fin[c] = N
        # at[k:=n] of 'last' forms etc. is handled by subst
        no = Not(ex)
        for t, g, s in norm:
            out.append((t, And(no, subst(g, fin)), self.subst_state(s, fin)))
        if E is not FALSE:
            f = settype(mk("first", n, lm), ("num", "usize"))
            fin = {l: subst(x, {k: f}) for l, x in full.items()}
            fin[k] = f
            done = FALSE
            for i, (t, g, s) in enumerate(early):
                g = subst(g, fin)
                g = And(g, Not(done)) if i < len(early) - 1 else Not(done)
                done = Or(done, g)
                out.append((t, And(ex, g), self.subst_state(s, fin)))
        return out

    def subst_state(self, s, m):
        memo = {}
        return {c: terms._subst(v, m, memo) for c, v in s.items()}

    def closed(self, a, init, b, k):
        """value of a at the start of iteration k, given its update b"""
        if b is a or b is BOT:
            return init
        if not has(b, a):
            prev = sub(k, ONE)
            x = subst(b, {k: prev})
            if x is b and b is init:
                return init
            z = is_label(k, 0)
            return select([(z, init), (Not(z), x)])
        d = sub(b, a) if self.numeric(b, a) else None
        if d is not None and not has(d, a) and d.op != "g" and not has(d, k):
            return add(init, mul(d, k))
        if b.op == "slice" and b.a[0] is a and b.a[2] is None and b.a[1].op == "int":
            return slice_(init, mul(b.a[1], k), None)
        e = self.pointwise(a, b, k)
        if e is not None:
            ph = mk("sym", "elem")
            x = subst(e, {nth(a, k): ph})
            if not has(x, a):
                x = subst(x, {ph: nth(init, k)})
                return cat([mk("spr", flat(k, lam([k], lst([x])))), mk("spr", drop(init, k))])
        # append
        suf = self.suffix(b, a)
        if suf is not None and not has(suf, a):
            return cat([mk("spr", init), mk("spr", flat(k, lam([k], suf)))])
        if b.op == "map" and init.op == "map":
            suf = self.suffix(b.a[0], a)
            if suf is not None and not has(suf, a):
                return mk("map", cat([mk("spr", init.a[0]), mk("spr", flat(k, lam([k], suf)))]))
        return None

    def pointwise(self, a, b, k):
        """the new element k of a when b is a with just element k replaced (under a guard)"""
        old = nth(a, k)

        def go(b):
            if b is a:
                return old
            if b is BOT:
                return BOT
            if b.op == "upd" and b.a[0] is a and b.a[1] is k:
                return b.a[2]
            if b.op == "cat" and len(b.a) == 3 and b.a[1].op == "one" and b.a[0] is mk("spr", take(a, k)) and b.a[2] is mk("spr", drop(a, add(k, ONE))):
                return b.a[1].a[0]
            return None
        if b.op != "g":
            return go(b)
        ls = [(is_path(b, x), go(x)) for x in leaves(b)]
        if any(x is None for g, x in ls):
            return None
        return select(ls)

    def numeric(self, b, a):
        t = tyof(a)
        if t is not None:
            return t[0] == "num"
        return all(x.op in ("lin", "int", "lv") for x in leaves(b))

    def suffix(self, b, a):
        if b.op == "g":
            v, cs, df = b.a
            r = {l: self.suffix(c, a) if c is not BOT else BOT for l, c in cs}
            d = self.suffix(df, a) if df is not None else None
            if any(x is None for x in r.values()) or (df is not None and d is None):
                return None
            return ite_node(v, r, d)
        if b is a:
            return EMPTY
        if b.op == "cat" and b.a and b.a[0].op == "spr" and b.a[0].a[0] is a:
            return cat(b.a[1:])
        return None

    def close_while(self, lc, lvs, back, gb, exits, nlog, nobl, mine):
        rest = sorted(mine)
        lc.exits = [g for _, g, _ in exits]
        bundle = mk("adt", "()", 0, gb, *[back[l] for l in rest])
        lm = lam(rest, bundle)
        inits = tuple(lvs[l] for l in rest)
        fin = {}
        done = peel(lm, inits)
        for i, l in enumerate(rest):
            if done is not None:
                fin[l] = done[i]
                continue
            x = settype(mk("while", i, lm, inits), tyof(l))
            fin[l] = x
            self.lvinfo[l] = (lvs[l], back[l], gb, lc)
            self.lvterm[l] = x
            self.lvinfo[x] = l
        lc.lvs = rest
        out = []
        if len(exits) == 1:
            t, g, s = exits[0]
            return [(t, subst(g, fin), self.subst_state(s, fin))]
        for t, g, s in exits:
            out.append((t, subst(g, fin), self.subst_state(s, fin)))
        return out

    def iterate(self, seq, body, pos=ZERO, early=False):
        """run body(elem) for each element of seq from pos on, state-carrying.
        body returns None. If early: body returns a guard under which the loop
        stops after this element, with the value it yields: (guard, value).
        returns (stopped guard, value)"""
        l = few(seq)
        if l is None and pos is ZERO and seq.p and seq.op == "cat":
            return self.iterate_parts(seq, body, early)
        if l is None and pos is ZERO and seq.p and seq.op == "flat" and flat_width(seq) is None:
            # a filtered sequence of places: step over what it was filtered from
            lm = seq.a[1]

            def inner(i):
                def one_of(x):
                    if x is EMPTY or x is BOT:
                        return (FALSE, BOT) if early else None
                    return body(x.a[0].a[0])
                s = beta(lm, [i])
                ls = [x for x in leaves(s)]
                if any(x.op != "cat" or len(x.a) > 1 or x.a and x.a[0].op != "one" for x in ls if x is not BOT):
                    raise Limit("iteration over a nested sequence of places")
                r = self.fork([(is_path(s, x), (lambda x=x: self.tup2(one_of(x)))) for x in ls])
                return (boolify(self.proj(r, ("f", 0))), self.proj(r, ("f", 1))) if early else (FALSE, BOT)
            k = mk("sym", "placek", ("num", "usize"))
            return self.iterate(flat(seq.a[0], lam([k], cat([one(mk("ixof", k))]))), lambda x: inner(x.a[0]), ZERO, early)
        n = ln(seq)
        if l is not None and pos.op == "int":
            stop, val, items = FALSE, BOT, []
            base_ctx, base_cur = self.ctx, self.cur
            states = []
            acc = TRUE
            for x in l[pos.a[0]:]:
                self.ctx = And(base_ctx, And(base_cur, acc))
                if self.ctx is FALSE:
                    break
                self.cur = TRUE
                r = body(x)
                acc = And(acc, self.cur)
                if early:
                    g, v = r
                    gg = And(acc, g)
                    if gg is not FALSE:
                        items.append((gg, v, dict(self.st)))
                        acc = And(acc, Not(g))
            self.ctx = base_ctx
            states = [(g, s) for g, v, s in items]
            if acc is not FALSE:
                states.append((acc, self.st))
            if not states:
                self.cur = FALSE
                return FALSE, BOT
            self.st = merge(states)
            tot = FALSE
            for g, s in states:
                tot = Or(tot, g)
            self.cur = And(base_cur, tot)
            for g, v, s in items:
                stop = Or(stop, g)
            return stop, select([(g, v) for g, v, s in items])
        cell = ("cnt", self.ncell)
        self.ncell += 1
        vcell = ("cnt", self.ncell)
        self.ncell += 1
        base_ctx, base_cur = self.ctx, self.cur
        self.st = dict(self.st)
        self.st[cell] = pos

        def runner(st):
            self.st = st
            c = st[cell]
            more = lt(c, n)
            exits = []
            back = []
            no = Not(more)
            if self.feasible(no):
                exits.append(("end", no, dict(st)))
            if self.feasible(more):
                sc, ctx = self.cur, self.ctx
                self.ctx = And(ctx, more)
                self.cur = TRUE
                r = body(nth(seq, c))
                g2 = And(more, self.cur)
                if early:
                    sg, v = r
                    s2 = dict(self.st)
                    s2[vcell] = v
                    s2.pop(cell, None)
                    if And(self.ctx, And(self.cur, sg)) is not FALSE:
                        exits.append(("stop", And(g2, sg), s2))
                    g2 = And(g2, Not(sg))
                self.ctx = ctx
                if self.feasible(g2):
                    s3 = dict(self.st)
                    s3[cell] = add(c, ONE)
                    back.append((g2, s3))
                self.cur = sc
            return back, exits
        self.ctx = And(base_ctx, base_cur)
        self.cur = TRUE
        res = self.solve_loop(self.st, runner, self.site)
        self.ctx = base_ctx
        if not res:
            self.cur = FALSE
            return FALSE, BOT
        self.st = merge([(g, s) for t, g, s in res])
        stop = FALSE
        tot = FALSE
        for t, g, s in res:
            tot = Or(tot, g)
            if t == "stop":
                stop = Or(stop, g)
        self.cur = And(base_cur, tot)
        v = self.st.pop(vcell, BOT)
        self.st.pop(cell, None)
        return stop, v

    def tup2(self, r):
        return tup(*r) if isinstance(r, tuple) else tup(FALSE, BOT)

    def iterate_parts(self, seq, body, early):
        """a concatenation that holds places: one part after the other"""
        parts = [p.a[0] if p.op == "spr" else cat([p]) for p in seq.a]
        if not early:
            for p in parts:
                self.iterate(p, body)
            return FALSE, BOT

        def go(i):
            if i == len(parts):
                return tup(FALSE, BOT)
            s, v = self.iterate(parts[i], body, ZERO, True)
            return self.fork([(s, lambda: tup(TRUE, v)), (Not(s), lambda: go(i + 1))])
        r = go(0)
        return boolify(self.proj(r, ("f", 0))), self.proj(r, ("f", 1))

    # ------------------------------------------------------------ calls
    def call(self, fr, t):
        _, cal, args, dst, tgt, aty, dty, fop = t
        av = []
        at = []
        for o, ty in zip(args, aty):
            v, _ = self.operand(fr, o)
            av.append(v)
            at.append(tsub(cty_c(ty), fr.subs))
        rt = tsub(cty_c(dty), fr.subs)
        if "ptr" in cal:
            f, _ = self.operand(fr, fop)
            return self.call_value(f, av, rt)
        subs = tuple(tsub(cty_c(x), fr.subs) for x in cal["a"])
        return self.call_fn(cal["p"], cal["name"], subs, av, at, rt, cal.get("trait"), cal.get("m"), cal.get("res"), fr)

    def call_value(self, f, args, rt=None):
        """call a closure / function value"""
        if f.op == "ptr":
            v = self.load(f)
            if v.op == "clo":
                return self.call_clo(v, args, f, rt)
            return self.call_value(v, args, rt)
        if f.op == "g":
            return self.fork([(is_path(f, x), (lambda x=x: self.call_value(x, args, rt))) for x in leaves(f) if x is not BOT])
        if f.op == "clo":
            return self.call_clo(f, args, None, rt)
        if f.op == "fn":
            ty = f.a[0]
            p, name, subs = ty[1], ty[2], ty[3]
            # tuple struct / variant constructors
            c = self.ctor(p, name, args)
            if c is not None:
                return c
            trait, m = None, None
            if p not in self.prog.bodies:
                trait, m = name.rsplit("::", 1)[0], name.rsplit("::", 1)[1]
                if trait not in self.prog.by_trait and not self.is_trait(trait):
                    trait = None
            return self.call_fn(p, name, subs, args, [None] * len(args), rt, trait, m, None, None)
        a = tuple(self.deep(x) for x in args)
        r = settype(mk("call", "call_value", None, (self.deep(f),) + a), rt)
        self.logcall("call_value", (self.deep(f),) + a, r)
        return r

    def is_trait(self, t):
        return t.split("::")[-1] in TRAITS

    def ctor(self, p, name, args):
        # crate::Enum::Variant or crate::Struct used as function
        p2 = p[:-len("::{constructor#0}")] if p.endswith("::{constructor#0}") else p
        par, _, last = p2.rpartition("::")
        a = self.prog.adts.get(par)
        if a is not None and a["kind"] == "enum":
            for i, v in enumerate(a["v"]):
                if v["n"] == last:
                    return adt(par, i, *args)
        a = self.prog.adts.get(p2)
        if a is not None and a["kind"] == "struct":
            return adt(p2, 0, *args)
        return None

    def call_clo(self, f, args, ptr=None, rt=None):
        bid = f.a[0]
        b = self.prog.bodies.get(bid)
        if b is None or self.stack.count(bid) > 0 or len(self.stack) > self.max_depth:
            a = tuple(self.deep(x) for x in args)
            return settype(mk("call", bid, None, (self.deep(f),) + a), rt)
        need = b["args"] - 1
        selft = cty_c(b["locals"][1])
        env = f
        if selft[0] == "ref" and selft[1]:
            # FnMut: the closure's own state may change
            env = ptr if ptr is not None else mk("ptr", self.newcell(f), ())
        if len(args) != need and len(args) == 1 and args[0].op == "adt" and args[0].a[0] == "()" and len(args[0].a) - 2 == need:
            args = list(args[0].a[2:])
        elif len(args) != need and len(args) == 1 and need != 1:
            args = [self.proj(args[0], ("f", i)) for i in range(need)]
        return self.run_body(bid, f.a[1], [env] + list(args))

    def call_fn(self, p, name, subs, av, at, rt, trait=None, m=None, res=None, fr=None):
        if self.abs() is FALSE:
            self.cur = FALSE
            return BOT
        c = self.ctor(p, name, av) if p.endswith("{constructor#0}") else None
        if c is not None:
            return c
        # closures and function values through the Fn traits
        if m in ("call", "call_mut", "call_once") and trait and trait.split("::")[-1] in ("Fn", "FnMut", "FnOnce"):
            tupargs = av[1]
            tv = self.load(tupargs) if tupargs.op == "ptr" else tupargs
            if tv.op == "adt" and tv.a[0] == "()":
                al = list(tv.a[2:])
            else:
                al = [tv]
            return self.call_value(av[0], al, rt)
        # resolved target with a body
        tp, ts = p, subs
        if res is not None:
            tp = res["p"]
            ts = tuple(tsub(cty_c(x), fr.subs) for x in res["a"]) if fr is not None else tuple(cty_c(x) for x in res["a"])
        if trait is not None and tp not in self.prog.bodies or (trait is not None and self.prog.bodies[tp].get("in_trait")):
            im = self.resolve(trait, m, subs)
            if im is not None:
                tp, ts = im
        short2 = "::".join(name.split("::")[-2:])
        ov = self.mod.OVERRIDE.get(short2)
        if ov is not None:
            r = ov(self, Call(self, name, subs, av, at, rt, trait, m, tp))
            if r is not None:
                return r
        if tp in self.prog.bodies and tp not in self.no_inline and self.prog.bodies[tp]["kind"] in ("fn", "method") and (tp, tuple(ts)) not in self.stack2 and len(self.stack) < self.max_depth:
            return self.inline(tp, ts, av, at, rt)
        cl = Call(self, name, subs, av, at, rt, trait, m, tp)
        fn = None
        if tp not in self.prog.bodies:
            rn = res["name"] if res is not None else None
            for key in ([short_name(rn)] if rn else []) + [short_name(name)]:
                fn = self.models.get(key)
                if fn is not None:
                    break
            if fn is None and trait is not None:
                fn = self.models.get(trait.split("::")[-1] + "::" + m)
        if fn is not None:
            r = fn(self, cl)
            if r is not None:
                return r
        return self.opaque(cl)

    def through(self, tp, ts, av, at, rt, trait, m):
        """the method m of a trait reached by another one's model, as a direct call of it would be treated"""
        if tp in self.no_inline:
            return self.opaque(Call(self, trait + "::" + m, ts, av, at, rt, trait, m, tp))
        return self.inline(tp, ts, av, at, rt)

    def inline(self, tp, ts, av, at, rt):
        b = self.prog.bodies[tp]
        # async fn wrappers return a coroutine; nothing special
        before = len(self.log)
        args = list(av)
        n = len(self.stack)
        if self.rec:
            r0 = Rec("enter", b["name"], tuple(self.deep(x) for x in args), self.abs(), None, self.site, self.loops, self.stack[-1] if self.stack else None, len(self.log))
            self.log.append(r0)
        r = self.run_body(tp, ts, args)
        if self.rec:
            r0.res = self.deep(r) if r is not BOT else BOT
        return r

    def resolve(self, trait, m, subs):
        selft = subs[0] if subs else None
        if selft is None:
            return None
        cand = [selft]
        u = selft
        while u[0] == "ref":
            u = u[2]
            cand.append(u)
        for i, st in enumerate(cand):
            f = self.prog.find_impl(trait, st, (st,) + tuple(subs[1:len(self._trait_args(trait))]) if True else None)
            if f is None:
                continue
            im, isub = f
            if m in im["items"]:
                bid = im["items"][m]
                if bid in self.prog.bodies:
                    extra = subs[len(im["a"]):]
                    return bid, isub + tuple(extra)
            # default method
            d = trait + "::" + m
            if d in self.prog.bodies:
                return d, (st,) + tuple(subs[1:])
        return None

    def _trait_args(self, trait):
        ims = self.prog.by_trait.get(trait)
        return ims[0]["a"] if ims else ()

    def opaque(self, cl, name=None):
        name = name or cl.name
        av, at = cl.av, cl.at
        G = self.abs()
        args = tuple(simp(G, self.deep(x)) for x in av)
        tk = None
        s2 = short_name(name)
        if s2 in TYPED or (cl.trait and cl.trait.split("::")[-1] + "::" + cl.m in TYPED):
            tk = cl.rt
        r = mk("call", name, tk, args)
        settype(r, cl.rt)
        self.opaque_seen[name] = self.opaque_seen.get(name, 0) + 1
        self.logcall(name, args, r, extra=None)
        for i, (v, ty) in enumerate(zip(av, at)):
            ps = []
            if v.op == "ptr" or (v.op == "g" and v.p):
                ps = [v]
            elif v.p and ty is not None and ty[0] in ("num", "bool", "char"):
                # a number made in a loop that went through places keeps none of them
                ps = []
            elif v.p:
                continue_ptrs = [x for x in subterms(v) if x.op == "ptr"]
                ps = continue_ptrs
            for j, p in enumerate(ps):
                old = self.load(p)
                new = mk("mut", r, i, j)
                t = unref(ty) if p is v else None
                if t is None:
                    for y in leaves(old):
                        if tyof(y) is not None:
                            t = tyof(y)
                settype(new, t)
                ot = tyof(old)
                if t is not None and t[0] in ("slice", "array") or ot is not None and ot[0] == "array":
                    seqs.LENS[new.id] = seqs.ln(old)
                # a coroutine/closure passed by mutable reference stays what it is
                if old.op in ("clo", "cor"):
                    continue
                self.store(p, new)
        if cl.rt is not None and cl.rt[0] == "ref" and cl.rt[1] and av and av[0].op == "ptr" and at and at[0] is not None and at[0][0] == "ref" and unref(at[0]) == unref(cl.rt):
            return av[0]
        if cl.rt is not None and cl.rt[0] == "bool":
            return boolify(r)
        if cl.rt is not None and cl.rt[0] == "never":
            self.cur = FALSE
        if cl.rt == ("tuple", ()):
            return UNIT
        return r


TRAITS = {"From", "Into", "TryFrom", "TryInto", "AsRef", "Default", "Clone", "ToString", "Iterator", "IntoIterator", "FromStr", "Display", "Debug", "Deref", "Fn", "FnMut", "FnOnce", "PartialEq", "PartialOrd", "Ord", "Hash", "ToOwned", "Borrow", "FromIterator"}
TYPED = {"str::parse", "From::from", "Into::into", "TryFrom::try_from", "TryInto::try_into", "Default::default", "Iterator::collect", "FromStr::from_str", "FromIterator::from_iter", "serde_json::from_str", "serde_json::from_reader", "serde_json::from_value", "FromResidual::from_residual", "Iterator::sum", "de::from_str", "de::from_reader", "ser::to_string", "Sum::sum", "consensus::deserialize", "encode::deserialize", "Hash::from_slice", "Hash::hash", "FromHex::from_hex", "Parser::parse", "value::from_value"}


class Call:
    __slots__ = ("e", "name", "subs", "av", "at", "rt", "trait", "m", "tp")

    def __init__(self, e, name, subs, av, at, rt, trait, m, tp):
        self.e, self.name, self.subs, self.av, self.at, self.rt, self.trait, self.m, self.tp = e, name, subs, av, at, rt, trait, m, tp

    def val(self, i):
        """argument i with references removed"""
        v = self.av[i]
        n = 0
        while v.op == "ptr" and n < 8:
            v = self.e.load(v)
            n += 1
        if v.p:
            v = self.e.deep(v) if v.op not in ("clo", "adt") else v
        ty = unref(self.at[i]) if self.at and i < len(self.at) else None
        if ty is not None and v.op not in ("g",):
            settype(v, ty)
        if ty == ("bool",):
            v = boolify(v)
        if v.g and v.op != "g":
            v = simp(self.e.abs(), v)
        elif v.g:
            v = simp(self.e.abs(), v)
        return v

    def raw(self, i):
        return self.av[i]

    def ty(self, i):
        return unref(self.at[i]) if self.at[i] is not None else None


def byte_places(x):
    """the bytes a number is put together from: place (0: the lowest) -> byte, or None"""
    if x.op == "shl" and x.a[1].op == "int" and x.a[1].a[0] % 8 == 0:
        b = byte_places(x.a[0])
        return {k + x.a[1].a[0] // 8: v for k, v in b.items()} if b is not None else None
    if x.op == "or":
        a, b = byte_places(x.a[0]), byte_places(x.a[1])
        return None if a is None or b is None or set(a) & set(b) else {**a, **b}
    if x.op == "fromb" and x.a[1] <= 8:
        n = x.a[1]
        return {(n - 1 - i if x.a[0] == "be" else i): nth(x.a[2], I(i)) for i in range(n)}
    t = tyof(x)
    if x.op == "nth" and (t is None or t == ("num", "u8")) or t == ("num", "u8"):
        et = seqs.elem_type(tyof(x.a[0])) if x.op == "nth" else t
        return {0: x} if et == ("num", "u8") else None
    return None


def mosaic(x, y, ta):
    """or of bytes shifted to their places: the number read from these bytes"""
    a, b = byte_places(x), byte_places(y)
    if a is None or b is None or set(a) & set(b):
        return None
    a.update(b)
    n = len(a)
    width = {"u16": 2, "u32": 4, "u64": 8, "u128": 16, "usize": 8, "i16": 2, "i32": 4, "i64": 8}.get(tname(ta) or "", 0)
    if set(a) != set(range(n)) or n < 2 or width and n > width:
        return None
    bs = [a[n - 1 - i] for i in range(n)]
    f, en = bs[0], "be"
    if f.op == "nth" and bs[-1].op == "nth" and f.a[1].op == "int" and bs[-1].a[1].op == "int" and bs[-1].a[1].a[0] < f.a[1].a[0]:
        en, bs, f = "le", bs[::-1], bs[-1]
    s = None
    if f.op == "nth" and f.a[1].op == "int":
        lo = f.a[1].a[0]
        if all(b is nth(f.a[0], I(lo + i)) for i, b in enumerate(bs)):
            s = f.a[0] if lo == 0 and ln(f.a[0]) is I(n) else slice_(f.a[0], I(lo), I(lo + n))
    return settype(terms.BUILD["fromb"](en, n, s if s is not None else lst(bs)), ta)


MEMLENS = set()         # terms that are lengths of sequences in memory


def small(x):
    return x is BOT or x.id in MEMLENS or x.op == "len" or x.op == "int" and 0 <= x.a[0] < 2 ** 62


class Frame:
    __slots__ = ("e", "b", "subs", "uid", "lt", "_scc")
    cfg_cache = {}

    def __init__(self, e, b, subs, uid):
        self.e, self.b, self.subs, self.uid = e, b, subs, uid
        self.lt = e.prog.ltypes(b)
        e.frames[uid] = self

    def ty(self, i):
        return tsub(self.lt[i], self.subs)

    def nodes(self):
        c = self.b.get("_nodes")
        if c is None:
            c = self.b["_nodes"] = frozenset(i for i, x in enumerate(self.b["blocks"]) if not x["cleanup"])
        return c

    def succ(self, i):
        s = self.b.setdefault("_succ", {})
        if i in s:
            return s[i]
        t = self.b["blocks"][i]["t"]
        k = t[0]
        if k == "goto":
            r = [t[1]]
        elif k == "switch":
            r = [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        elif k == "drop":
            r = [t[1]]
        elif k == "call":
            r = [t[4]] if t[4] is not None else []
        elif k == "assert":
            r = [t[4]]
        elif k == "yield":
            r = [t[1]]
        else:
            r = []
        s[i] = r
        return r

    def selfloop(self, n, header):
        return n != header and n in self.succ(n)

    def sccs(self, nodes, entry, header):
        key = (nodes, entry, header)
        cache = self.b.setdefault("_sccs", {})
        if key in cache:
            return cache[key]
        index, low, onst, stack, out = {}, {}, set(), [], []
        cnt = [0]

        def succ(v):
            return [w for w in self.succ(v) if w in nodes and w != header]

        # iterative Tarjan
        def visit(root):
            work = [(root, iter(succ(root)))]
            index[root] = low[root] = cnt[0]
            cnt[0] += 1
            stack.append(root)
            onst.add(root)
            while work:
                v, itr = work[-1]
                adv = False
                for w in itr:
                    if w not in index:
                        index[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        stack.append(w)
                        onst.add(w)
                        work.append((w, iter(succ(w))))
                        adv = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = stack.pop()
                        onst.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
        visit(entry)
        r = out[::-1]
        cache[key] = r
        return r


_ctyc = {}


def cty_c(j):
    """cty memoised per JSON object"""
    if j is None:
        return None
    k = id(j)
    r = _ctyc.get(k)
    if r is None or r[0] is not j:
        r = _ctyc[k] = (j, cty(j))
    return r[1]


def deref_ty(t):
    if t is None:
        return None
    if t[0] in ("ref", "ptr"):
        return t[2]
    if t[0] == "adt" and t[1] == "alloc::boxed::Box":
        return t[2][0]
    return t


def gappy(s):
    """a sequence of places whose n-th element has no direct name"""
    if s.op not in ("cat", "flat") or not s.p or few(s) is not None:
        return False
    if s.op == "cat" and s.a[-1] is mk("spr", it_spent().a[2]):
        return False
    return s.op == "cat" and len(s.a) > 1 or s.op == "flat" and flat_width(s) is None


def it_spent():
    return adt("ITER", 0, mk("sym", "unread", ("num", "usize")), ZERO)


def few(s):
    """the elements of a sequence that is written out or has few elements"""
    l = short_list(s)
    if l is None and s.op != "g":
        n = ENG.known(ln(s))
        if n.op == "int" and n.a[0] <= 8:
            l = [nth(s, I(i)) for i in range(n.a[0])]
    return l


def short_name(n):
    return "::".join(n.split("::")[-2:])


def join(inc):
    if len(inc) == 1:
        return inc[0]
    g = FALSE
    for x, _ in inc:
        g = Or(g, x)
    return g, merge(inc)


def merge(items):
    if len(items) == 1:
        return items[0][1]
    first = items[0][1]
    out = {}
    keys = list(first)
    ks = set(keys)
    for _, s in items[1:]:
        for k in s:
            if k not in ks:
                ks.add(k)
                keys.append(k)
    for k in keys:
        v = first.get(k)
        same = v is not None
        if same:
            for _, s in items[1:]:
                if s.get(k) is not v:
                    same = False
                    break
        if same:
            out[k] = v
        else:
            out[k] = select([(g, s.get(k, BOT)) for g, s in items])
    return out


def lit_of(var, l):
    if isinstance(l, tuple):
        g = TRUE
        for x in l[1]:
            g = And(g, Not(lit(var, x)))
        return g
    return lit(var, l)


def is_path(v, x):
    """guard under which the guarded value v is the leaf x"""
    return apply(None, lambda y: TRUE if y is x else FALSE, v)


def exists(n, lm):
    if n is ZERO or lm.a[2] is FALSE:
        return FALSE
    body = lm.a[2]
    if body is TRUE:
        return Not(is_label(n, 0))
    if body.op == "g":
        j = mk("sym", f"#ex{lm.a[0]}", ("num", "usize"))
        body = beta(lm, [j])
        if body.op == "g":
            v, cs, df = body.a
            if not has(v, j):
                out = [(lit(v, l), exists(n, lam([j], c))) for l, c in cs]
                if df is not None:
                    out.append((lit_of(v, ("other", [l for l, _ in cs])), exists(n, lam([j], df))))
                return select(out)
            if v.op == "lin" and len(cs) == 1 and cs[0][0] == 0 and cs[0][1] is TRUE and df is FALSE:
                k = dict(v.a[1]).get(j)
                if k in (1, -1):
                    e = add(v, j) if k == -1 else sub(j, v)
                    if not has(e, j):
                        return And(Not(lt(e, ZERO)), lt(e, n))
    return boolify(mk("exists", n, lm))


BUILD["exists"] = exists


def peel(lm, inits, limit=80):
    """the state a loop ends in, if its condition is decided at every iteration"""
    for _ in range(limit):
        b = beta(lm, list(inits))
        if b.op != "adt":
            return None
        if b.a[2] is FALSE:
            return inits
        if b.a[2] is not TRUE or any(x is BOT for x in b.a[3:]):
            return None
        if b.a[3:] == tuple(inits):
            return None
        inits = tuple(b.a[3:])
    return None


def b_while(i, lm, inits):
    d = peel(lm, inits)
    return d[i] if d is not None else mk("while", i, lm, inits)


BUILD["while"] = b_while


def fbin(op, a, b, ta):
    def f(a, b):
        if a is BOT or b is BOT:
            return BOT
        if a.op == "float" and b.op == "float":
            x, y = a.a[0], b.a[0]
            if op in ("Add", "Sub", "Mul"):
                return mk("float", {"Add": x + y, "Sub": x - y, "Mul": x * y}[op])
            if op == "Div" and y != 0:
                return mk("float", x / y)
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return TRUE if {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op] else FALSE
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return boolify(mk("fcmp", op, a, b))
        return settype(mk("fbin", op, a, b), ta)
    return apply(None, f, a, b)


def b_fold(j, k, lm, inits):
    if k is ZERO:
        return inits[j]
    if len(inits) == 1 and j == 0:
        # an array all of whose elements are overwritten, one per index
        h, n, body = lm.a
        kk, st = mk("bv", h), mk("bv", h + 1)
        if n == 2 and body.op == "adt" and len(body.a) == 3:
            u = body.a[2]
            if u.op == "upd" and u.a[0] is st and u.a[1] is kk and not has(u.a[2], st) and ln(inits[0]) is k:
                return flat(k, mk("lam", h, 1, cat([mk("one", u.a[2])])))
    if k.op == "int" and k.a[0] <= 16:
        # as many steps as it takes
        state = tuple(inits)
        for i in range(k.a[0]):
            b = beta(lm, [I(i)] + list(state))
            if b.op != "adt" or len(b.a) != 2 + len(state):
                break
            state = b.a[2:]
        else:
            return state[j]
    return mk("fold", j, k, lm, inits)


BUILD["fold"] = b_fold


def b_discr(v, dom):
    if v.op == "g":
        return apply(None, lambda x: b_discr(x, dom), v)
    if v.op == "adt":
        return I(ENG.prog.variant_discr(v.a[0], v.a[1])) if ENG else I(v.a[1])
    if v is BOT:
        return BOT
    return mk("discr", v, dom)


def b_updf(v, i, x):
    if v is BOT:
        return BOT
    if v.op == "g":
        return apply(None, lambda y: b_updf(y, i, x), v)
    if v.op in ("adt", "clo", "cor") and 2 + i < len(v.a):
        a = list(v.a)
        a[2 + i] = x
        return mk(v.op, *a)
    if v.op == "updf" and v.a[1] == i:
        return b_updf(v.a[0], i, x)
    return mk("updf", v, i, x)


BUILD["updf"] = b_updf


def b_fld(v, i):
    if v.op == "g":
        return apply(None, lambda x: b_fld(x, i), v)
    if v is BOT:
        return BOT
    if v.op in ("adt", "clo", "cor"):
        return v.a[2 + i] if 2 + i < len(v.a) else BOT
    if v.op == "updf":
        return v.a[2] if v.a[1] == i else b_fld(v.a[0], i)
    r = mk("fld", v, i)
    return r


def b_as(v, k):
    if v.op == "g":
        return apply(None, lambda x: b_as(x, k), v)
    if v.op == "adt":
        return v if v.a[1] == k else BOT
    if v is BOT:
        return BOT
    return mk("as", v, k)


def b_cast(d, v):
    return ENG.intcast(v, None, d) if ENG else mk("cast", d, v)


def b_intop(nm):
    def f(x, y):
        return apply(None, lambda p, q: ENG.intop(nm, p, q, None), x, y)
    return f


def b_ovf(tn, r):
    return ENG.overflow(r, tn, None, None, None)


BUILD["discr"] = b_discr
BUILD["fld"] = b_fld
BUILD["as"] = b_as
BUILD["cast"] = b_cast
BUILD["ovf"] = b_ovf
for _n in ("and", "or", "xor", "div", "rem", "shl", "shr"):
    BUILD[_n] = b_intop(_n)

ENG = None


def derive_type(t):
    if t.op == "nth":
        return seqs.elem_type(tyof(t.a[0])) or guess_elem(t.a[0])
    if ENG is None:
        return None
    base, vi = t.a[0], 0
    if base.op == "as":
        base, vi = base.a[0], base.a[1]
    bt = tyof(base)
    return ENG.prog.field_type(bt, vi, t.a[1]) if bt is not None else None


fterms = __import__("terms")
fterms.DERIVE = derive_type


def guess_ty(x):
    if x is None:
        return None
    if x.op in ("int", "lin", "len"):
        return ("num", "int")
    if x.op == "g":
        for l in leaves(x):
            t = guess_ty(l)
            if t is not None:
                return t
        return None
    if x.op == "adt":
        a = ENG.prog.adts.get(x.a[0]) if ENG else None
        if a is not None and x.a[0] != "()" and not any(has_param(f["t"]) for v in a["v"] for f in v["f"]):
            return ("adt", x.a[0], ())
        return None
    t = tyof(x)
    if t is None and x.op in ("flat", "cat", "upd", "take", "drop", "slice"):
        e = guess_elem(x)
        if e is not None:
            return ("adt", "alloc::vec::Vec", (e,))
    return t


def has_param(t):
    if isinstance(t, tuple):
        return bool(t) and (t[0] == "param" or any(has_param(x) for x in t))
    return False


def guess_elem(x, d=0):
    """the type of the elements of a sequence, from an element that has one"""
    if d > 6:
        return None
    if x.op == "g":
        for l in leaves(x):
            t = guess_elem(l, d + 1)
            if t is not None:
                return t
        return None
    if x.op == "cat":
        for p in x.a:
            t = guess_ty(p.a[0]) if p.op == "one" else guess_elem(p.a[0], d + 1)
            if t is not None:
                return t
        return None
    if x.op == "flat":
        return guess_elem(x.a[1].a[-1], d + 1)
    if x.op in ("upd", "take", "drop", "slice"):
        t = seqs.elem_type(tyof(x))
        return t if t is not None else guess_elem(x.a[0], d + 1)
    return seqs.elem_type(tyof(x))


# push joins below constructors: node() of equal constructors is a constructor of nodes
_node0 = terms.node


def node_push(var, cases, default=None):
    r = _node0(var, cases, default)
    if r.op != "g":
        return r
    v, cs, df = r.a
    ch = [c for _, c in cs if c is not BOT] + ([df] if df is not None and df is not BOT else [])
    f = ch[0]
    if f.op in ("adt", "clo", "cor") and len(f.a) > 2 and all(c.op == f.op and c.a[:2] == f.a[:2] and len(c.a) == len(f.a) for c in ch):
        fs = []
        for i in range(2, len(f.a)):
            fs.append(ite_node(v, {l: (c.a[i] if c is not BOT else BOT) for l, c in cs}, (df.a[i] if df is not BOT else BOT) if df is not None else None))
        return mk(f.op, f.a[0], f.a[1], *fs)
    return r


terms.node = node_push
