"""Hash-consed value terms with guarded (multi-valued decision diagram) values.

A value is a term.  A guarded value is a node  g(var; label -> child, ...)  whose
variables are ordered by first use, so two guarded values that agree under every
assignment of their variables are the same object.  A boolean is a guarded value
over TRUE and FALSE.  BOT is "no value here" (diverged or uninitialised).
"""
import sys
sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "a", "id", "g", "p", "bv", "loc", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        g = op == "g"
        p = op == "ptr"
        bv = a[0] + 1 if op == "bv" else 0
        loc = op == "lv" or op == "ptr"
        for x in _kids(a):
            loc = loc or x.loc
            g = g or x.g
            p = p or x.p
            if x.bv > bv:
                bv = x.bv
        t.g = g
        t.p = p
        t.loc = loc
        t.bv = bv
        _tab[k] = t
    return t


def _kids(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _kids(x)


TRUE = mk("true")
FALSE = mk("false")
BOT = mk("bot")
UNIT = mk("adt", "()", 0)


def I(n):
    return mk("int", n)


ZERO = I(0)
ONE = I(1)


def S(x):
    return mk("str", x)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 24:
        return "…"
    o = t.op
    if o == "int":
        return str(t.a[0])
    if o == "str":
        return repr(t.a[0])
    if o in ("true", "false", "bot"):
        return o.upper()
    if o == "adt":
        p, v, f = t.a[0], t.a[1], t.a[2:]
        return f"{p.split('::')[-1]}#{v}" + ("{" + ", ".join(show(x, d + 1) for x in f) + "}" if f else "")
    if o == "g":
        v, cs, df = t.a
        s = ", ".join(f"{l}: {show(c, d + 1)}" for l, c in cs)
        return f"[{show(v, d + 1)} ? {s}" + (f", _: {show(df, d + 1)}" if df is not None else "") + "]"
    if o == "call":
        return short(t.a[0]) + "(" + ", ".join(show(x, d + 1) for x in t.a[2]) + ")"
    if o == "sym":
        return str(t.a[0])
    if o in ("clo", "cor"):
        return short(str(t.a[0])) + "|" + ", ".join(show(x, d + 1) for x in t.a[2:]) + "|"
    if o == "bv":
        return f"$%d" % t.a[0]
    return o + "(" + ", ".join(show(x, d + 1) for x in t.a) + ")"


def short(n):
    return "::".join(n.split("::")[-2:])


# ---------------------------------------------------------------- decision diagrams
_order = {}


def order(v):
    o = _order.get(v)
    if o is None:
        o = _order[v] = len(_order)
    return o


BOOLVARS = {"lt", "eq", "b", "exists"}


def domain(v):
    """finite label set of a variable, or None"""
    if v.op in BOOLVARS:
        return (0, 1)
    if v.op == "discr":
        return v.a[1]
    return None


def node(var, cases, default=None):
    """cases: dict label->child. Reduced node."""
    dom = domain(var)
    if dom is not None:
        cs = {l: cases[l] if l in cases else (default if default is not None else BOT) for l in dom}
        default = None
    else:
        cs = dict(cases)
        if default is not None and default is not BOT:
            cs = {l: c for l, c in cs.items() if c is not default}
    ch = [c for c in cs.values() if c is not BOT]
    if default is not None and default is not BOT:
        ch.append(default)
    if not ch:
        return BOT
    f = ch[0]
    if all(c is f for c in ch):
        return f
    items = tuple(sorted(cs.items(), key=lambda x: x[0]))
    return mk("g", var, items, default)


def cof(t, var, label):
    """child of t when var takes label (label None: none of the listed labels)"""
    if t.op == "g" and t.a[0] is var:
        if label is not None:
            for l, c in t.a[1]:
                if l == label:
                    return c
        return t.a[2] if t.a[2] is not None else BOT
    return t


_memo = {}


def apply(key, f, *ts):
    """combine guarded values; f is applied to the non-guarded leaves and may
    return a guarded value itself. key identifies f for memoisation (None: no memo)."""
    top = None
    for t in ts:
        if t.op == "g" and (top is None or order(t.a[0]) < order(top)):
            top = t.a[0]
    if top is None:
        if key is None:
            return f(*ts)
        k = (key, ts)
        r = _memo.get(k)
        if r is None:
            r = _memo[k] = f(*ts)
        return r
    k = (key, ts) if key is not None else None
    if k is not None:
        r = _memo.get(k)
        if r is not None:
            return r
    labels = []
    hasdef = domain(top) is None
    for t in ts:
        if t.op == "g" and t.a[0] is top:
            for l, _ in t.a[1]:
                if l not in labels:
                    labels.append(l)
    cases = {l: apply(key, f, *[cof(t, top, l) for t in ts]) for l in labels}
    df = apply(key, f, *[cof(t, top, None) for t in ts]) if hasdef else None
    r = ite_node(top, cases, df)
    if k is not None:
        _memo[k] = r
    return r


def ite_node(var, cases, df):
    """like node(), but children may mention variables ordered before var"""
    o = order(var)
    ch = list(cases.values()) + ([df] if df is not None else [])
    if all(c.op != "g" or order(c.a[0]) > o for c in ch):
        return node(var, cases, df)
    # general: select children by guards
    labs = list(cases)
    r = BOT
    items = [(lit(var, l), cases[l]) for l in labs]
    if df is not None:
        rest = TRUE
        for g, _ in items:
            rest = And(rest, Not(g))
        items.append((rest, df))
    return select(items)


def lit(var, label):
    dom = domain(var)
    if dom is not None:
        return node(var, {l: (TRUE if l == label else FALSE) for l in dom})
    return node(var, {label: TRUE}, FALSE)


def _and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is BOT or b is BOT:
        return BOT
    return TRUE


def And(a, b):
    if a is TRUE or a is b:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    return apply("and", _and, a, b)


def _or(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is BOT:
        return b
    if b is BOT:
        return a
    return FALSE


def Or(a, b):
    if a is FALSE or a is b:
        return b
    if b is FALSE:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    return apply("or", _or, a, b)


def Not(a):
    return apply("not", lambda x: FALSE if x is TRUE else TRUE if x is FALSE else BOT, a)


def gate(g, v):
    """v where g holds, BOT elsewhere"""
    if g is TRUE:
        return v
    if g is FALSE:
        return BOT
    return apply("gate", lambda x, y: y if x is TRUE else BOT, g, v)


def _first(*xs):
    for x in xs:
        if x is not BOT:
            return x
    return BOT


def select(items):
    """items: [(guard, value)] with disjoint guards"""
    items = [(g, v) for g, v in items if g is not FALSE and v is not BOT]
    if not items:
        return BOT
    f = items[0][1]
    if all(v is f for _, v in items):
        return f
    # tagged selection keeps BOT-dropping out of the guards until the end
    r = None
    for g, v in items:
        r = _sel(g, v, r)
    return drop_bot(r)


HOLE = mk("hole")


def _sel(g, v, r):
    if r is None:
        return apply("sel0", lambda x, y: y if x is TRUE else HOLE, g, v)
    return apply("sel1", lambda x, y, z: (y if x is TRUE else z) if z is HOLE else z, g, v, r)


def drop_bot(t):
    return apply("dropbot", lambda x: BOT if x is HOLE else x, t)


def boolify(t):
    """a boolean-valued term as a guard"""
    if t in (TRUE, FALSE, BOT) or t.op == "g":
        return t
    if t.op == "int":
        return TRUE if t.a[0] else FALSE
    if t.op in BOOLVARS:
        return lit(t, 1)
    return lit(mk("b", t), 1)


def is_label(v, label):
    """guard: the integer/discriminant value v equals label"""
    def f(x):
        if x is BOT:
            return BOT
        if x.op == "int":
            return TRUE if x.a[0] == label else FALSE
        if x is TRUE or x is FALSE:
            return TRUE if (x is TRUE) == bool(label) else FALSE
        if x.op == "lin":
            # c + k*t == label
            c, ts = x.a
            if len(ts) == 1:
                t, k = ts[0]
                if (label - c) % k:
                    return FALSE
                return is_label(t, (label - c) // k)
        r = range_of(x)
        if r is not None and not r[0] <= label <= r[1]:
            return FALSE
        return lit(x, label)
    return apply(("islabel", label), f, v)


def paths(t, limit=4096):
    """enumerate (literals, leaf); a literal is (var, label) or (var, ('not', labels))"""
    out = []

    def go(t, lits):
        if len(out) >= limit:
            raise OverflowError("too many paths")
        if t.op != "g":
            out.append((tuple(lits), t))
            return
        v, cs, df = t.a
        for l, c in cs:
            go(c, lits + [(v, l)])
        if df is not None:
            go(df, lits + [(v, ("not", tuple(l for l, _ in cs)))])
    go(t, [])
    return out


def leaves(t):
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "g":
            st += [c for _, c in x.a[1]]
            if x.a[2] is not None:
                st.append(x.a[2])
        else:
            out.append(x)
    return out


def gvars(t, out=None):
    out = set() if out is None else out
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "g":
            out.add(x.a[0])
            st += [c for _, c in x.a[1]]
            if x.a[2] is not None:
                st.append(x.a[2])
    return out


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st += list(_kids(x.a))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def has(t, x):
    return any(y is x for y in subterms(t))


# ---------------------------------------------------------------- arithmetic
def lin_parts(x):
    if x.op == "int":
        return x.a[0], {}
    if x.op == "lin":
        return x.a[0], dict(x.a[1])
    return 0, {x: 1}


def mk_lin(c, ts):
    ts = {t: k for t, k in ts.items() if k}
    if not ts:
        return I(c)
    if c == 0 and len(ts) == 1:
        (t, k), = ts.items()
        if k == 1:
            return t
    return mk("lin", c, tuple(sorted(ts.items(), key=lambda x: x[0].id)))


def b2i(x):
    return ONE if x is TRUE else ZERO if x is FALSE else x


def _add(a, b, sb):
    if a is BOT or b is BOT:
        return BOT
    a, b = b2i(a), b2i(b)
    c1, t1 = lin_parts(a)
    c2, t2 = lin_parts(b)
    for t, k in t2.items():
        t1[t] = t1.get(t, 0) + sb * k
    return mk_lin(c1 + sb * c2, t1)


def add(a, b):
    return apply("add", lambda x, y: _add(x, y, 1), a, b)


def sub(a, b):
    return apply("sub", lambda x, y: _add(x, y, -1), a, b)


def _mul(a, b):
    if a is BOT or b is BOT:
        return BOT
    if a.op != "int":
        a, b = b, a
    if a.op == "int":
        k = a.a[0]
        c, ts = lin_parts(b)
        return mk_lin(c * k, {t: v * k for t, v in ts.items()})
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk("mul", x, y)


def mul(a, b):
    return apply("mul", _mul, a, b)


def _lt(a, b):
    if a is BOT or b is BOT:
        return BOT
    a, b = b2i(a), b2i(b)
    if a is b:
        return FALSE
    if a.op == "int" and b.op == "int":
        return TRUE if a.a[0] < b.a[0] else FALSE
    # canonical: cancel common parts of linear terms
    c1, t1 = lin_parts(a)
    c2, t2 = lin_parts(b)
    d = dict(t1)
    for t, k in t2.items():
        d[t] = d.get(t, 0) - k
    d = {t: k for t, k in d.items() if k}
    if not d:
        return TRUE if c1 < c2 else FALSE
    # a<b  <=>  sum d + (c1-c2) < 0
    import math
    gg = 0
    for k in d.values():
        gg = math.gcd(gg, k)
    c = c1 - c2
    # sum d <= -c-1  -> (sum d)/g <= floor((-c-1)/g)
    ub = (-c - 1) // gg
    d = {t: k // gg for t, k in d.items()}
    # normal form:  sum d <= ub
    if len(d) == 1:
        (t, k), = d.items()
        r = range_of(t)
        if r is not None and k == 1:
            if r[1] <= ub:
                return TRUE
            if r[0] > ub:
                return FALSE
        if r is not None and k == -1:
            if r[0] >= -ub:
                return TRUE
            if r[1] < -ub:
                return FALSE
        if k == -1 and nonneg(t):
            # -t <= ub  <=> t >= -ub
            if -ub <= 0:
                return TRUE
            if -ub == 1:
                return Not(is_label(t, 0))
        if k == 1 and nonneg(t):
            if ub < 0:
                return FALSE
            if ub == 0:
                return is_label(t, 0)
        if k == 1:
            return boolify(mk("lt", t, I(ub + 1)))
        return Not(boolify(mk("lt", t, I(-ub))))
    bs = [(range_of(t) or ((0, None) if nonneg(t) else (None, None)), k) for t, k in d.items()]
    los = [(b[0] if k > 0 else b[1]) for b, k in bs]
    if None not in los and sum(x * k for x, (_, k) in zip(los, bs)) > ub:
        return FALSE
    his = [(b[1] if k > 0 else b[0]) for b, k in bs]
    if None not in his and sum(x * k for x, (_, k) in zip(his, bs)) <= ub:
        return TRUE
    pos = mk_lin(0, {t: k for t, k in d.items() if k > 0})
    neg = mk_lin(0, {t: -k for t, k in d.items() if k < 0})
    if all(k > 0 for k in d.values()):
        return boolify(mk("lt", pos, I(ub + 1)))
    if all(k < 0 for k in d.values()):
        return Not(boolify(mk("lt", neg, I(-ub))))
    # pos <= neg + ub  <=> pos < neg+ub+1 ; orient by smallest id to canonicalise negation
    return _orient(pos, neg, ub)


def _orient(pos, neg, ub):
    # pos - neg <= ub.  negation: neg - pos <= -ub-1
    if ub >= 0 and not (ub == 0 and pos.id < neg.id):
        # use negation: not(neg < pos - ub)  i.e. not (neg + ub < pos)
        return Not(boolify(mk("lt", add(neg, I(ub)), pos)))
    return boolify(mk("lt", add(pos, I(-ub - 1)), neg))


UNSIGNED = {"u8", "u16", "u32", "u64", "u128", "usize"}


def nonneg(t):
    if t.op == "len":
        return True
    if t.op == "int":
        return t.a[0] >= 0
    if t.op in ("sym",):
        return t.a[1] is not None and t.a[1][0] == "num" and t.a[1][1] in UNSIGNED
    if t.op in ("fld", "vfld", "nth", "call", "lv", "cast", "bits", "mut", "first", "cp", "typed"):
        ty = tyof(t)
        return ty is not None and ty[0] in ("num", "char") and (ty[0] == "char" or ty[1] in UNSIGNED)
    if t.op == "lin":
        return t.a[0] >= 0 and all(k > 0 and nonneg(x) for x, k in t.a[1])
    if t.op in ("mul", "div", "rem"):
        return nonneg(t.a[0]) and nonneg(t.a[1])
    return False


INTR = {}
for _n in (8, 16, 32, 64, 128):
    INTR[f"u{_n}"] = (0, 2**_n - 1)
    INTR[f"i{_n}"] = (-2**(_n - 1), 2**(_n - 1) - 1)
INTR["usize"], INTR["isize"] = INTR["u64"], INTR["i64"]
RANGE_RULES = []


def range_of(t):
    """numeric bounds of an opaque term, from its type and from declared invariants"""
    if t.op == "int":
        return (t.a[0], t.a[0])
    for f in RANGE_RULES:
        r = f(t)
        if r is not None:
            return r
    if t.op == "len":
        return (0, 2**63 - 1)
    if t.op == "discr" and t.a[1]:
        return (min(t.a[1]), max(t.a[1]))
    if t.op in ("lin", "mul", "div", "rem"):
        return None
    ty = tyof(t)
    while ty is not None and ty[0] == "ref":
        ty = ty[2]
    if ty is not None and ty[0] == "num":
        return INTR.get(ty[1])
    if ty is not None and ty[0] == "adt" and ty[1] == "bitcoin::util::amount::Amount":
        return INTR["u64"]
    return None


# types of opaque terms, recorded when first seen with a known type
_ty = {}


def settype(t, ty):
    if ty is not None and t.op not in ("g", "int", "adt", "lin", "cat", "true", "false", "bot") and t not in _ty:
        _ty[t] = ty
    return t


def forget_local_types():
    """names numbered within one run (loop variables, cells) mean something else in the next"""
    for t in [t for t in _ty if t.loc]:
        del _ty[t]


def tyof(t):
    if t.op == "sym":
        return t.a[1]
    if t.op == "cast":
        return ("num", t.a[0])
    if t.op == "int":
        return None
    r = _ty.get(t)
    if r is None and DERIVE is not None and t.op in ("nth", "fld"):
        r = DERIVE(t)
        if r is not None:
            _ty[t] = r
    return r


DERIVE = None       # the type of a part, from the type of the whole


def lt(a, b):
    if a.op == "inf":
        return FALSE
    if b.op == "inf":
        return TRUE
    return apply("lt", _lt, a, b)


def le(a, b):
    return Not(lt(b, a))


def _eq(a, b):
    if a is BOT or b is BOT:
        return BOT
    if a is b:
        return TRUE
    if a.op in ("true", "false") or b.op in ("true", "false"):
        a, b = b2i(a), b2i(b)
        if a is b:
            return TRUE
    if a.op == "int" and b.op == "int":
        return FALSE
    if b.op == "int":
        return is_label(a, b.a[0])
    if a.op == "int":
        return is_label(b, a.a[0])
    if a.op == "lin" or b.op == "lin":
        d = _add(a, b, -1)
        if d.op == "int":
            return FALSE
        c, ts = lin_parts(d)
        if len(ts) == 1:
            return is_label(d, 0)
        if ts[min(ts)] < 0:
            d = mk_lin(-c, {t: -k for t, k in ts.items()})
            c, ts = lin_parts(d)
        pos = mk_lin(c if c > 0 else 0, {t: k for t, k in ts.items() if k > 0})
        neg = mk_lin(-c if c < 0 else 0, {t: -k for t, k in ts.items() if k < 0})
        a, b = pos, neg
    if a.op == "adt" and b.op == "adt":
        if a.a[0] != b.a[0] or a.a[1] != b.a[1] or len(a.a) != len(b.a):
            return FALSE
        r = TRUE
        for x, y in zip(a.a[2:], b.a[2:]):
            r = And(r, eq(x, y))
        return r
    if a.op == "str" and b.op == "str":
        return FALSE
    if a.op == "cat" and b.op == "cat":
        import seqs
        r = seqs.eq_cat(a, b)
        if r is not None:
            return r
    if (a.op == "cat") != (b.op == "cat"):
        x, y = (a, b) if a.op == "cat" else (b, a)
        if 0 < len(x.a) <= 64 and y.op not in ("adt", "ptr", "g", "str", "bot") and all(p.op == "one" and p.a[0].op == "int" for p in x.a):
            # bytes compared with constants: one by one
            import seqs
            r = _eq(seqs.ln(y), I(len(x.a))) if seqs.ln(y).op != "g" else None
            if r is not None:
                for i, p in enumerate(x.a):
                    if r is FALSE:
                        break
                    r = And(r, eq(seqs.nth(y, I(i)), p.a[0]))
                return r
    if "slice" in (a.op, b.op):
        import seqs
        x, y = (a, b) if a.op == "slice" else (b, a)
        if seqs.ln(x).op != "int" and y.op == "slice":
            x, y = y, x
        n = seqs.ln(x)
        if n.op == "int" and n.a[0] <= 8 and y.op not in ("adt", "ptr", "g", "bot"):
            # a few elements: one by one
            m = seqs.ln(y)
            r = _eq(m, n) if m.op != "g" else None
            if r is not None:
                for i in range(n.a[0]):
                    if r is FALSE:
                        break
                    r = And(r, eq(seqs.nth(x, I(i)), seqs.nth(y, I(i))))
                return r
    if EXPAND_EQ is not None and ("adt" in (a.op, b.op)):
        r = EXPAND_EQ(a, b)
        if r is not None:
            return r
    x, y = sorted((a, b), key=lambda t: t.id)
    return boolify(mk("eq", x, y))


EXPAND_EQ = None


def eq(a, b):
    return apply("eq", _eq, a, b)


def case_on(v, cases, default=None):
    """value selected by the integer/bool value v: cases label->term"""
    items = []
    rest = TRUE
    for l, c in cases.items():
        g = is_label(v, l)
        items.append((g, c))
        rest = And(rest, Not(g))
    if default is not None:
        items.append((rest, default))
    return select(items)


# ---------------------------------------------------------------- rebuild / substitution
BUILD = {}


def build(op, a):
    f = BUILD.get(op)
    if f:
        return f(*a)
    return mk(op, *a)


def subst(t, m, memo=None):
    """replace terms (keys of m) by terms, re-simplifying"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif not t.a:
        r = t
    elif t.op == "g":
        v, cs, df = t.a
        nv = _subst(v, m, memo)
        ncs = {l: _subst(c, m, memo) for l, c in cs}
        ndf = _subst(df, m, memo) if df is not None else None
        if nv is v:
            r = t if all(ncs[l] is c for l, c in cs) and ndf is df else ite_node(v, ncs, ndf)
        else:
            r = case_on(nv, ncs, ndf)
    else:
        na = _subst_args(t.a, m, memo)
        if na == t.a:
            r = t
        else:
            r = build(t.op, na)
            ty = _ty.get(t)
            if ty is not None:
                settype(r, ty)
    memo[t] = r
    return r


def _subst_args(a, m, memo):
    return tuple(_subst(x, m, memo) if isinstance(x, T) else _subst_args(x, m, memo) if isinstance(x, tuple) else x for x in a)


def b_lin(c, ts):
    r = I(c)
    for t, k in ts:
        r = add(r, mul(t, I(k)))
    return r


BUILD["lin"] = b_lin
BUILD["mul"] = mul
BUILD["lt"] = lambda a, b: lt(a, b)
BUILD["eq"] = lambda a, b: eq(a, b)
BUILD["b"] = lambda x: boolify(x)


def restrict(t, lits):
    """t under path literals (deep)"""
    d = dict(lits)
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if not t.g:
            r = t
        elif t.op == "g":
            v, cs, df = t.a
            l = d.get(v)
            if l is not None and not isinstance(l, tuple):
                r = go(cof(t, v, l))
            elif l is not None:
                # default branch: drop excluded labels
                ncs = {x: go(c) for x, c in cs if x not in l[1]}
                r = node(v, ncs, go(df) if df is not None else None)
            else:
                ncs = {x: go(c) for x, c in cs}
                r = node(v, ncs, go(df) if df is not None else None)
        else:
            def ra(a):
                return tuple(go(x) if isinstance(x, T) else ra(x) if isinstance(x, tuple) else x for x in a)
            na = ra(t.a)
            r = t if na == t.a else build(t.op, na)
        memo[t] = r
        return r
    return go(t)


# ---------------------------------------------------------------- binders
def lam(syms, body):
    """close body over fresh symbols"""
    h = body.bv
    m = {s: mk("bv", h + i) for i, s in enumerate(syms)}
    return mk("lam", h, len(syms), subst(body, m))


def beta(l, args):
    h, n, body = l.a
    m = {mk("bv", h + i): x for i, x in enumerate(args)}
    return subst(body, m)


def b_lam(h, n, body):
    # keep binder heights canonical after substitution
    nh = 0
    # inner height: bvs with level < h inside body
    for x in subterms(body):
        if x.op == "bv" and x.a[0] < h and x.a[0] + 1 > nh:
            nh = x.a[0] + 1
    if nh != h:
        body = subst(body, {mk("bv", h + i): mk("bv", nh + i) for i in range(n)})
        h = nh
    return mk("lam", h, n, body)


BUILD["lam"] = b_lam


# ---------------------------------------------------------------- simplification under a guard
_smemo = {}


def exq(g):
    """the guard with its top variable quantified away"""
    v, cs, df = g.a
    r = FALSE
    for _, c in cs:
        r = Or(r, c if c is not BOT else FALSE)
    if df is not None and df is not BOT:
        r = Or(r, df)
    return r


_mmemo = {}


def mentions(t, v):
    """a selection on v occurs in t"""
    k = (t, v)
    r = _mmemo.get(k)
    if r is None:
        if not t.g:
            r = False
        else:
            r = t.op == "g" and t.a[0] is v or any(mentions(x, v) for x in _kids(t.a))
        _mmemo[k] = r
    return r


def simp(g, t):
    """a value equal to t wherever g holds, with the cases g excludes removed"""
    if not isinstance(t, T) or not t.g or g is TRUE:
        return t
    if g is FALSE or g is BOT:
        return BOT
    k = (g, t)
    r = _smemo.get(k)
    if r is not None:
        return r
    if t.op == "g":
        v, cs, df = t.a
        og = order(g.a[0]) if g.op == "g" else None
        ov = order(v)
        if og is not None and og < ov:
            # a variable above may be used inside the (opaque) values of t
            if not mentions(t, g.a[0]):
                r = simp(exq(g), t)
            else:
                ncs, rest = {}, g
                for l, c in cs:
                    h = lit(v, l)
                    gg = And(g, h)
                    rest = And(rest, Not(h))
                    ncs[l] = simp(gg, c) if gg is not FALSE and gg is not BOT else BOT
                ndf = None
                if df is not None:
                    ndf = simp(rest, df) if rest is not FALSE and rest is not BOT else BOT
                r = ite_node(v, ncs, ndf)
        elif og is not None and g.a[0] is v:
            ncs = {}
            for l, c in cs:
                gg = cof(g, v, l)
                ncs[l] = simp(gg, c) if gg is not FALSE and gg is not BOT else BOT
            # labels only the guard knows
            ndf = None
            if df is not None:
                for l, gc in g.a[1]:
                    if l not in ncs and gc is not FALSE and gc is not BOT:
                        ncs[l] = simp(gc, df)
                gg = cof(g, v, None)
                ndf = simp(gg, df) if gg is not FALSE and gg is not BOT else BOT
            r = node(v, ncs, ndf)
        else:
            nv = v
            ncs = {l: simp(g, c) for l, c in cs}
            ndf = simp(g, df) if df is not None else None
            r = node(v, ncs, ndf)
    else:
        def ra(a):
            return tuple(simp(g, x) if isinstance(x, T) else ra(x) if isinstance(x, tuple) else x for x in a)
        na = ra(t.a)
        r = t if na == t.a else build(t.op, na)
        if r is not t and r.op != "g":
            ty = _ty.get(t)
            if ty is not None:
                settype(r, ty)
    _smemo[k] = r
    return r
