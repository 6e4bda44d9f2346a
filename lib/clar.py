"""Reading Clarity contracts: an s-expression parser and a path enumerator.

A function is turned into the table of its paths. A path has the literals decided on it, the effects on the
chain state in order, and its result. Values are symbolic terms; nothing is executed and no solver is asked:
a literal already decided is followed, its negation is not. Clarity has no recursion and no unbounded loops, and folds
stay symbolic (by the table of the folded function), so every function has finitely many paths.
"""
import re


class ClarError(Exception):
    pass


# ---------------------------------------------------------------- parsing
TOK = re.compile(r'''[\s]+|;[^\n]*|(?P<str>u?"(?:\\.|[^"\\])*")|(?P<p>[(){},:])|(?P<atom>[^\s(){},:;"]+)''')


class Node(list):
    """a list expression with its line"""
    line = 0


class Sym(str):
    line = 0


def tokens(text):
    i, line = 0, 1
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise ClarError(f"line {line}: unreadable {text[i:i+10]!r}")
        s = m.group(0)
        if m.lastgroup:
            yield m.lastgroup, s, line
        line += s.count("\n")
        i = m.end()


def parse(text):
    toks = list(tokens(text))
    pos = [0]

    def one():
        if pos[0] >= len(toks):
            raise ClarError("unexpected end of contract")
        k, s, line = toks[pos[0]]
        pos[0] += 1
        if k == "p":
            if s == "(":
                out = Node()
                out.line = line
                while peek() != ")":
                    out.append(one())
                pos[0] += 1
                return out
            if s == "{":
                out = Node([Sym("tuple")])
                out.line = line
                while peek() != "}":
                    key = one()
                    if peek() == ":":
                        pos[0] += 1
                    pair = Node([key, one()])
                    pair.line = line
                    out.append(pair)
                    if peek() == ",":
                        pos[0] += 1
                pos[0] += 1
                return out
            raise ClarError(f"line {line}: unexpected {s}")
        y = Sym(s)
        y.line = line
        return y

    def peek():
        if pos[0] >= len(toks):
            raise ClarError("unexpected end of contract")
        return toks[pos[0]][1]
    res = []
    while pos[0] < len(toks):
        res.append(one())
    return res


def strip(n):
    """the expression without positions, for comparing sources"""
    return tuple(strip(x) for x in n) if isinstance(n, list) else str(n)


# ---------------------------------------------------------------- terms
TRUE, FALSE, NONE = ("b", True), ("b", False), ("none",)
ZERO = ("num", 0)


def isnum(t):
    return t[0] in ("num", "lin")


def lin(t):
    if t[0] == "num":
        return t[1], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def unlin(k, d):
    d = {a: c for a, c in d.items() if c}
    if not d:
        return ("num", k)
    if k == 0 and len(d) == 1:
        (a, c), = d.items()
        if c == 1:
            return a
    return ("lin", k, tuple(sorted(d.items(), key=repr)))


def add(a, b, f=1):
    ka, da = lin(a)
    kb, db = lin(b)
    for t, c in db.items():
        da[t] = da.get(t, 0) + f * c
    return unlin(ka + f * kb, da)


def mul(a, b):
    if a[0] == "num":
        a, b = b, a
    if b[0] == "num":
        k, d = lin(a)
        return unlin(k * b[1], {t: c * b[1] for t, c in d.items()})
    return ("mul",) + tuple(sorted((a, b), key=repr))


def blen(t):
    """number of bytes of a buffer term, or None"""
    k = t[0]
    if k == "buf":
        return len(t[1])
    if k in ("sha256", "sha512/256", "keccak256"):
        return 32
    if k == "hash160":
        return 20
    if k == "sha512":
        return 64
    if k == "arg":
        return t[2] if len(t) > 2 else None
    if k == "sized":
        return t[2]
    if k == "slice":
        return t[3] - t[2]
    if k == "rev":
        return blen(t[1])
    if k == "concat":
        n = [blen(x) for x in t[1]]
        return None if None in n else sum(n)
    return None


def bytesof(t):
    n = blen(t)
    if n is None:
        return None
    if t[0] == "buf":
        return [("k", x) for x in t[1]]
    if t[0] == "slice":
        return bytesof_full(t[1])[t[2]:t[3]] if bytesof_full(t[1]) else [("at", t[1], i) for i in range(t[2], t[3])]
    if t[0] == "rev":
        return bytesof(t[1])[::-1]
    if t[0] == "concat":
        return [b for x in t[1] for b in bytesof(x)]
    return [("at", t, i) for i in range(n)]


def bytesof_full(t):
    return bytesof(t) if blen(t) is not None else None


def frombytes(bs):
    runs = []
    for b in bs:
        if b[0] == "k":
            if runs and runs[-1][0] == "k":
                runs[-1][1].append(b[1])
            else:
                runs.append(["k", [b[1]]])
        else:
            r = runs[-1] if runs else None
            if r and r[0] == "at" and r[1] == b[1] and (r[3] in (0, b[2] - r[2][-1])) and b[2] - r[2][-1] in (1, -1):
                r[3] = b[2] - r[2][-1]
                r[2].append(b[2])
            else:
                runs.append(["at", b[1], [b[2]], 0])
    out = []
    for r in runs:
        if r[0] == "k":
            out.append(("buf", bytes(r[1])))
            continue
        src, ix, d = r[1], r[2], r[3]
        lo, hi = min(ix), max(ix) + 1
        base = src if (lo == 0 and hi == blen(src)) else ("slice", src, lo, hi)
        out.append(("rev", base) if d == -1 else base)
    if not out:
        return ("buf", b"")
    return out[0] if len(out) == 1 else ("concat", tuple(out))


def concat(a, b):
    x, y = bytesof(a), bytesof(b)
    if x is not None and y is not None:
        return frombytes(x + y)
    parts = (a[1] if a[0] == "concat" else (a,)) + (b[1] if b[0] == "concat" else (b,))
    return ("concat", parts)


def eq(a, b):
    """the literal of a = b"""
    if a == b:
        return TRUE
    if a[0] == b[0] == "some":
        return eq(a[1], b[1])
    if {a[0], b[0]} == {"some", "none"}:
        return FALSE
    if a[0] == "none":
        a, b = b, a
    if b == NONE:
        return ("not", ("some?", a))
    consts = ("num", "b", "buf", "s", "principal")
    if a[0] in consts and b[0] in consts:
        return TRUE if a == b else FALSE
    if b == TRUE:
        return a
    if b == FALSE:
        return neg(a)
    for x, y in ((a, b), (b, a)):
        if x[0] == "bit" and y == ("num", 1):
            return ("not", ("zero", x))
    if isnum(a) or isnum(b):
        d = add(a, b, -1)
        k, m = lin(d)
        if not m:
            return TRUE if k == 0 else FALSE
        s = sorted(m.items(), key=repr)
        if s[0][1] < 0:
            d = mul(d, ("num", -1))
        return ("zero", d)
    return ("eq",) + tuple(sorted((a, b), key=repr))


def neg(a):
    if a == TRUE:
        return FALSE
    if a == FALSE:
        return TRUE
    if a[0] == "not":
        return a[1]
    return ("not", a)


def lt(a, b):
    """a < b over the integers"""
    d = add(a, b, -1)
    k, m = lin(d)
    if not m:
        return TRUE if k < 0 else FALSE
    if a == ZERO and b[0] == "bit":
        return neg(eq(b, ZERO))
    s = sorted(m.items(), key=repr)
    if s[0][1] < 0:                                    # d < 0  <=>  not (-d < 1)
        return ("not", ("neg", add(mul(d, ("num", -1)), ("num", -1))))
    return ("neg", d)


# ---------------------------------------------------------------- contracts
class Fn:
    def __init__(self, name, kind, params, body, line):
        self.name, self.kind, self.params, self.body, self.line = name, kind, params, body, line


class Contract:
    def __init__(self, path, text, name):
        self.path, self.name = path, name
        self.forms = parse(text)
        self.fns, self.consts, self.vars, self.maps, self.fts, self.other = {}, {}, {}, {}, {}, []
        for f in self.forms:
            if not isinstance(f, list) or not f:
                self.other.append(f)
                continue
            h = f[0]
            if h in ("define-public", "define-read-only", "define-private"):
                sig = f[1]
                ps = [(str(p[0]), p[1]) for p in sig[1:]]
                if len(f) < 3:
                    raise ClarError(f"{path}:{f.line}: function without a body")
                body = f[2] if len(f) == 3 else Node([Sym("begin")] + list(f[2:]))
                if str(sig[0]) in self.fns:
                    raise ClarError(f"{path}:{f.line}: {sig[0]} defined twice")
                self.fns[str(sig[0])] = Fn(str(sig[0]), h[7:], ps, body, f.line)
            elif h == "define-constant":
                self.consts[str(f[1])] = f[2]
            elif h == "define-data-var":
                self.vars[str(f[1])] = (f[2], f[3])
            elif h == "define-map":
                self.maps[str(f[1])] = (f[2], f[3])
            elif h == "define-fungible-token":
                self.fts[str(f[1])] = f[2] if len(f) > 2 else None
            else:
                self.other.append(f)

    def public(self):
        return [f for f in self.fns.values() if f.kind == "public"]


class St:
    """state on a path: literals, effects, current variables and map writes"""
    __slots__ = ("lits", "eff", "vars", "maps", "nft")

    def __init__(self, lits=(), eff=(), vars=(), maps=()):
        self.lits, self.eff, self.vars, self.maps = lits, eff, vars, maps

    def lit(self, l):
        return St(self.lits + (l,), self.eff, self.vars, self.maps)

    def effect(self, e):
        return St(self.lits, self.eff + (e,), self.vars, self.maps)


class Path:
    def __init__(self, st, kind, val):
        self.st, self.kind, self.val = st, kind, val      # kind: v, panic
        self.lits, self.eff = st.lits, st.eff

    def holds(self, l):
        return l in self.lits

    def __repr__(self):
        return f"Path({self.lits} | {self.eff} | {self.kind} {self.val})"


def decide(lits, a):
    if a == TRUE:
        return True
    if a == FALSE:
        return False
    if a in lits:
        return True
    if neg(a) in lits:
        return False
    pos, want = (a[1], False) if a[0] == "not" else (a, True)
    if pos[0] in ("neg", "zero"):
        lo, hi = bounds(lits, pos[1])
        v = None
        if pos[0] == "neg":
            v = True if hi is not None and hi < 0 else False if lo is not None and lo >= 0 else None
        elif lo is not None and lo == hi == 0:
            v = True
        elif (lo is not None and lo > 0) or (hi is not None and hi < 0):
            v = False
        if v is not None:
            return v == want
    return None


def bounds(lits, d):
    """what the literals say about the linear value d: (least, greatest), None where unknown"""
    lo = hi = None
    holes = set()
    for l in lits:
        p, x = (False, l[1]) if l[0] == "not" else (True, l)
        if x[0] not in ("neg", "zero"):
            continue
        for f in (1, -1):
            k, m = lin(add(d, x[1], -f))               # d = f * x + k
            if m:
                continue
            if x[0] == "zero":
                if p:
                    lo = k if lo is None else max(lo, k)
                    hi = k if hi is None else min(hi, k)
                else:
                    holes.add(k)
            else:
                up = (k - 1 if p else None) if f == 1 else (None if p else k)
                dn = (None if p else k) if f == 1 else (k + 1 if p else None)
                if up is not None:
                    hi = up if hi is None else min(hi, up)
                if dn is not None:
                    lo = dn if lo is None else max(lo, dn)
    while lo in holes:
        lo += 1
    while hi in holes:
        hi -= 1
    return lo, hi


HASH = {"sha256", "sha512", "sha512/256", "keccak256", "hash160"}
PURE = {"to-uint", "len", "buff-to-int-be", "buff-to-uint-be", "buff-to-int-le", "principal-construct?", "principal-destruct?", "is-standard", "int-to-ascii", "int-to-utf8",
        "string-to-int?", "string-to-uint?", "secp256k1-verify", "secp256k1-recover?", "bit-or", "bit-xor", "bit-not", "bit-shift-right", "log2", "sqrti", "append", "index-of", "index-of?", "xor", "contract-of"}
KEYWORDS = {"tx-sender", "contract-caller", "block-height", "burn-block-height", "stx-liquid-supply", "chain-id", "is-in-mainnet", "is-in-regtest", "tx-sponsor?", "stacks-block-height", "tenure-height"}
LIMIT = 20000


class Eval:
    def __init__(self, con, callee=None):
        self.con = con
        self.callee = callee or (lambda contract, fn: None)   # -> kind of the function called, or None
        self.depth = 0

    def err(self, n, msg):
        raise ClarError(f"{self.con.path}:{getattr(n, 'line', '?')}: {msg}")

    # results: (st, kind, value); kind v = value, r = early return from the function, p = run-time panic
    def fn(self, name, args=None, st=None):
        f = self.con.fns.get(name)
        if f is None:
            raise ClarError(f"{self.con.path}: no function {name}")
        if args is None:
            args = [self.symarg(i, t) for i, (_, t) in enumerate(f.params)]
        if len(args) != len(f.params):
            raise ClarError(f"{self.con.path}:{f.line}: {name} takes {len(f.params)} arguments, not {len(args)}")
        env = {p: a for (p, _), a in zip(f.params, args)}
        self.depth += 1
        if self.depth > 40:
            raise ClarError(f"{name}: calls too deep")
        out = [(s, "v" if k == "r" else k, v) for s, k, v in self.ev(f.body, env, st or St())]
        self.depth -= 1
        return out

    def table(self, name, args=None):
        return [Path(s, "panic" if k == "p" else "v", v) for s, k, v in self.fn(name, args)]

    def symarg(self, i, t):
        if isinstance(t, list) and t and t[0] == "buff":
            return ("arg", i, int(t[1]))
        return ("arg", i)

    def seq(self, exprs, env, st):
        """evaluates the expressions in order: yields (st, 'v', [values]) or an early exit"""
        outs = [(st, [])]
        done = []
        for e in exprs:
            nxt = []
            for s, vs in outs:
                for s2, k, v in self.ev(e, env, s):
                    if k == "v":
                        nxt.append((s2, vs + [v]))
                    else:
                        done.append((s2, k, v))
            outs = nxt
            if len(outs) + len(done) > LIMIT:
                raise ClarError("too many paths")
        return [(s, "v", vs) for s, vs in outs] + done

    def branch(self, st, a):
        """the ways a condition can go: (state, bool)"""
        d = decide(st.lits, a)
        if d is not None:
            return [(st, d)]
        return [(st.lit(a), True), (st.lit(neg(a)), False)]

    # tests on options and responses -> [(st, good?, payload)]
    def split(self, st, v):
        k = v[0]
        if k in ("some", "ok"):
            return [(st, True, v[1])]
        if k == "none":
            return [(st, False, None)]
        if k == "err":
            return [(st, False, v[1])]
        if k == "opt":
            return [(s, b, ("val", v[1]) if b else None) for s, b in self.branch(st, ("some?", v[1]))]
        if k == "res":
            return [(s, b, ("val", v[1]) if b else ("errval", v[1])) for s, b in self.branch(st, ("ok?", v[1]))]
        # a symbolic argument of option or response type
        return [(s, b, ("val", v) if b else ("errval", v)) for s, b in self.branch(st, ("some?", v))]

    def ev(self, n, env, st):
        if not isinstance(n, list):
            return [(st, "v", self.atom(n, env, st))]
        if not n:
            self.err(n, "empty expression")
        h = n[0]
        if isinstance(h, list):
            self.err(n, "call of a computed function")
        h = str(h)
        f = getattr(self, "s_" + re.sub(r"[^a-z0-9]", "_", h), None) if h in SPECIAL else None
        if f:
            return f(n, env, st)
        if h in self.con.fns:
            out = []
            for s, k, vs in self.seq(n[1:], env, st):
                out += self.fn(h, vs, s) if k == "v" else [(s, k, vs)]
            return out
        out = []
        for s, k, vs in self.seq(n[1:], env, st):
            if k != "v":
                out.append((s, k, vs))
            else:
                out += self.op(h, vs, s, n)
        return out

    def atom(self, a, env, st):
        t = str(a)
        if t in env:
            return env[t]
        if t == "true":
            return TRUE
        if t == "false":
            return FALSE
        if t == "none":
            return NONE
        if re.fullmatch(r"u?-?\d+", t):
            return ("num", int(t.lstrip("u")))
        if t.startswith("0x"):
            return ("buf", bytes.fromhex(t[2:]))
        if t.startswith('"') or t.startswith('u"'):
            return ("s", t[t.index('"') + 1:-1])
        if t.startswith("'") or t.startswith("."):
            return ("principal", t)
        if t in self.con.consts:
            r = self.ev(self.con.consts[t], {}, St())
            if len(r) != 1 or r[0][1] != "v" or r[0][0].eff:
                self.err(a, f"constant {t} is not a plain value")
            return r[0][2] if r[0][2][0] != "kw" else ("at-deploy", r[0][2])
        if t in KEYWORDS:
            return env.get("\0" + t, ("kw", t))
        if t in self.con.fts or t in self.con.vars or t in self.con.maps or t in self.con.fns:
            return ("name", t)
        self.err(a, f"unknown name {t}")

    # ------------------------------------------------------------ special forms
    def s_begin(self, n, env, st):
        return [(s, k, vs[-1] if k == "v" else vs) for s, k, vs in self.seq(n[1:], env, st)]

    def s_let(self, n, env, st):
        outs, done = [(st, dict(env))], []
        for b in n[1]:
            nxt = []
            for s, e in outs:
                for s2, k, v in self.ev(b[1], e, s):
                    if k == "v":
                        e2 = dict(e)
                        e2[str(b[0])] = v
                        nxt.append((s2, e2))
                    else:
                        done.append((s2, k, v))
            outs = nxt
        for s, e in outs:
            done += self.s_begin([None] + list(n[2:]), e, s)
        return done

    def cond(self, e, env, st):
        """evaluates a condition: [(st, 'v', bool)] or exits"""
        out = []
        for s, k, v in self.ev(e, env, st):
            if k != "v":
                out.append((s, k, v))
                continue
            out += [(s2, "v", b) for s2, b in self.branch(s, v)]
        return out

    def s_if(self, n, env, st):
        if len(n) != 4:
            self.err(n, "if needs three parts")
        out = []
        for s, k, b in self.cond(n[1], env, st):
            out += self.ev(n[2] if b else n[3], env, s) if k == "v" else [(s, k, b)]
        return out

    def s_and(self, n, env, st, stop=False):
        live, out = [st], []
        for e in n[1:]:
            nxt = []
            for s in live:
                for s2, k, b in self.cond(e, env, s):
                    if k != "v":
                        out.append((s2, k, b))
                    elif b == stop:
                        out.append((s2, "v", ("b", stop)))
                    else:
                        nxt.append(s2)
            live = nxt
        return out + [(s, "v", ("b", not stop)) for s in live]

    def s_or(self, n, env, st):
        return self.s_and(n, env, st, True)

    def s_asserts_(self, n, env, st):
        out = []
        for s, k, b in self.cond(n[1], env, st):
            if k != "v":
                out.append((s, k, b))
            elif b:
                out.append((s, "v", TRUE))
            else:
                out += [(s2, "r" if k2 == "v" else k2, v) for s2, k2, v in self.ev(n[2], env, s)]
        return out

    def on_split(self, n, env, st, good, bad):
        out = []
        for s, k, v in self.ev(n, env, st):
            if k != "v":
                out.append((s, k, v))
                continue
            for s2, b, p in self.split(s, v):
                out += good(s2, p, v) if b else bad(s2, p, v)
        return out

    def s_try_(self, n, env, st):
        def bad(s, p, v):
            isopt = v[0] in ("none", "opt")
            return [(s, "r", NONE if isopt else ("err", p))]
        return self.on_split(n[1], env, st, lambda s, p, v: [(s, "v", p)], bad)

    def s_unwrap_(self, n, env, st):
        return self.on_split(n[1], env, st, lambda s, p, v: [(s, "v", p)],
                             lambda s, p, v: [(s2, "r" if k == "v" else k, x) for s2, k, x in self.ev(n[2], env, s)])

    def s_unwrap_err_(self, n, env, st):
        return self.on_split(n[1], env, st, lambda s, p, v: [(s2, "r" if k == "v" else k, x) for s2, k, x in self.ev(n[2], env, s)],
                             lambda s, p, v: [(s, "v", p)])

    def s_unwrap_panic(self, n, env, st):
        return self.on_split(n[1], env, st, lambda s, p, v: [(s, "v", p)], lambda s, p, v: [(s, "p", None)])

    def s_unwrap_err_panic(self, n, env, st):
        return self.on_split(n[1], env, st, lambda s, p, v: [(s, "p", None)], lambda s, p, v: [(s, "v", p)])

    def s_default_to(self, n, env, st):
        out = []
        for s, k, d in self.ev(n[1], env, st):
            out += self.on_split(n[2], env, s, lambda s2, p, v: [(s2, "v", p)], lambda s2, p, v: [(s2, "v", d)]) if k == "v" else [(s, k, d)]
        return out

    def s_match(self, n, env, st):
        out = []
        resp = len(n) == 6

        def good(s, p, v):
            e = dict(env)
            e[str(n[2])] = p
            return self.ev(n[3], e, s)

        def bad(s, p, v):
            if not resp:
                return self.ev(n[4], env, s)
            e = dict(env)
            e[str(n[4])] = p
            return self.ev(n[5], e, s)
        return self.on_split(n[1], env, st, good, bad)

    def test(self, n, env, st, want):
        return self.on_split(n[1], env, st, lambda s, p, v: [(s, "v", ("b", want))], lambda s, p, v: [(s, "v", ("b", not want))])

    def s_is_some(self, n, env, st):
        return self.test(n, env, st, True)

    def s_is_none(self, n, env, st):
        return self.test(n, env, st, False)
    s_is_ok, s_is_err = s_is_some, s_is_none

    def s_tuple(self, n, env, st):
        out = []
        for s, k, vs in self.seq([p[1] for p in n[1:]], env, st):
            out.append((s, k, ("tup", tuple(sorted((str(p[0]), v) for p, v in zip(n[1:], vs)))) if k == "v" else vs))
        return out

    def s_get(self, n, env, st):
        out = []
        for s, k, v in self.ev(n[2], env, st):
            if k == "v":
                if v[0] in ("some", "none", "opt"):
                    for s2, b, p in self.split(s, v):
                        out.append((s2, "v", ("some", self.field(p, str(n[1]))) if b else NONE))
                    continue
                v = self.field(v, str(n[1]))
            out.append((s, k, v))
        return out

    def field(self, v, f):
        if v[0] == "tup":
            for k, x in v[1]:
                if k == f:
                    return x
        if v[0] == "merge":
            for k, x in v[2]:
                if k == f:
                    return x
            return self.field(v[1], f)
        return ("get", f, v)

    def s_merge(self, n, env, st):
        out = []
        for s, k, vs in self.seq(n[1:], env, st):
            if k == "v":
                a, b = vs
                if b[0] != "tup":
                    vs = ("merge*", a, b)
                elif a[0] == "tup":
                    d = dict(a[1])
                    d.update(dict(b[1]))
                    vs = ("tup", tuple(sorted(d.items())))
                elif a[0] == "merge":
                    d = dict(a[2])
                    d.update(dict(b[1]))
                    vs = ("merge", a[1], tuple(sorted(d.items())))
                else:
                    vs = ("merge", a, b[1])
            out.append((s, k, vs))
        return out

    def s_as_contract(self, n, env, st):
        e = dict(env)
        e["\0tx-sender"] = e["\0contract-caller"] = ("principal", "self")
        return self.ev(n[1], e, st)

    def s_at_block(self, n, env, st):
        self.err(n, "at-block is not understood")

    def s_var_get(self, n, env, st):
        return [(st, "v", dict(st.vars).get(str(n[1]), ("var", str(n[1]))))]

    def s_var_set(self, n, env, st):
        out = []
        for s, k, v in self.ev(n[2], env, st):
            if k == "v":
                d = dict(s.vars)
                d[str(n[1])] = v
                s = St(s.lits, s.eff + (("var-set", str(n[1]), v),), tuple(sorted(d.items())), s.maps)
                v = TRUE
            out.append((s, k, v))
        return out

    def read(self, st, m, key):
        older = False
        for mm, kk, vv in reversed(st.maps):
            if mm != m:
                continue
            if kk == key:
                return vv
            if kk[0] in ("num", "buf", "s", "b", "principal") and key[0] == kk[0]:
                continue
            older = True
            break
        return ("opt", ("map", m, key) + (((st.maps),) if older else ()))

    def write(self, st, m, key, val, what):
        return St(st.lits, st.eff + ((what, m, key, val),), st.vars, st.maps + ((m, key, ("some", val) if val is not None else NONE),))

    def mapop(self, n, env, st, f):
        out = []
        for s, k, vs in self.seq(n[2:], env, st):
            out += f(s, str(n[1]), vs) if k == "v" else [(s, k, vs)]
        return out

    def s_map_get_(self, n, env, st):
        return self.mapop(n, env, st, lambda s, m, vs: [(s, "v", self.read(s, m, vs[0]))])

    def s_map_set(self, n, env, st):
        return self.mapop(n, env, st, lambda s, m, vs: [(self.write(s, m, vs[0], vs[1], "map-write"), "v", TRUE)])

    def s_map_insert(self, n, env, st):
        def f(s, m, vs):
            return [(s2, "v", FALSE) if b else (self.write(s2, m, vs[0], vs[1], "map-write"), "v", TRUE) for s2, b, _ in self.split(s, self.read(s, m, vs[0]))]
        return self.mapop(n, env, st, f)

    def s_map_delete(self, n, env, st):
        def f(s, m, vs):
            return [(self.write(s2, m, vs[0], None, "map-delete") if b else s2, "v", ("b", b)) for s2, b, _ in self.split(s, self.read(s, m, vs[0]))]
        return self.mapop(n, env, st, f)

    def s_contract_call_(self, n, env, st):
        out = []
        target, fn = str(n[1]), str(n[2])
        if not target.startswith((".", "'")):
            target = repr(self.atom(n[1], env, st))
        kind = self.callee(target, fn)
        for s, k, vs in self.seq(n[3:], env, st):
            if k != "v":
                out.append((s, k, vs))
                continue
            t = ("call", target, fn, tuple(vs))
            if kind != "read-only":
                s = s.effect(t)
                t = t + (len(s.eff),)
            out.append((s, "v", ("res", t)))
        return out

    def s_fold(self, n, env, st):
        out = []
        f = str(n[1])
        for s, k, vs in self.seq(n[2:], env, st):
            if k == "v":
                if f in self.con.fns and self.writes(f):
                    self.err(n, f"fold of {f}, which changes state")
                vs = ("fold", f, vs[0], vs[1])
            out.append((s, k, vs))
        return out

    def s_map(self, n, env, st):
        out = []
        f = str(n[1])
        for s, k, vs in self.seq(n[2:], env, st):
            if k == "v":
                if f in self.con.fns and self.writes(f):
                    self.err(n, f"map of {f}, which changes state")
                vs = (("maplist", f) + tuple(vs))
            out.append((s, k, vs))
        return out
    s_filter = s_map

    def writes(self, f):
        return any(p.eff for p in self.table(f))

    def s_get_burn_block_info_(self, n, env, st):
        out = []
        for s, k, v in self.ev(n[2], env, st):
            out.append((s, k, ("opt", ("burn-info", str(n[1]), v)) if k == "v" else v))
        return out
    s_get_block_info_ = s_get_burn_block_info_

    def s_asserts(self, n, env, st):
        self.err(n, "asserts")

    # ------------------------------------------------------------ functions of values
    def op(self, h, a, st, n):
        one = lambda v: [(st, "v", v)]
        if h == "ok":
            return one(("ok", a[0]))
        if h == "err":
            return one(("err", a[0]))
        if h == "some":
            return one(("some", a[0]))
        if h == "not":
            return one(neg(a[0]))
        if h == "is-eq":
            live, out = [st], []
            for x in a[1:]:
                nxt = []
                for s in live:
                    for s2, b in self.eqs(s, a[0], x):
                        if b:
                            nxt.append(s2)
                        else:
                            out.append((s2, "v", FALSE))
                live = nxt
            return out + [(s, "v", TRUE) for s in live]
        if h in ("<", ">", "<=", ">=") and len(a) == 2:
            x, y = a
            c = {"<": lambda: lt(x, y), ">": lambda: lt(y, x), "<=": lambda: neg(lt(y, x)), ">=": lambda: neg(lt(x, y))}[h]()
            return one(c)
        if h == "+":
            r = ZERO
            for x in a:
                r = add(r, x)
            return one(r)
        if h == "-":
            r = a[0] if len(a) > 1 else mul(a[0], ("num", -1))
            for x in a[1:]:
                r = add(r, x, -1)
            return one(r)
        if h == "*":
            r = ("num", 1)
            for x in a:
                r = mul(r, x)
            return one(r)
        if h == "pow":
            if a[0][0] == a[1][0] == "num":
                return one(("num", a[0][1] ** a[1][1]))
            return one(("pow", a[0], a[1]))
        if h == "mod":
            x, m = a
            if m == ("num", 2):
                if x[0] == "div" and x[2][0] == "pow" and x[2][1] == ("num", 2):
                    return one(bit(x[1], x[2][2]))
                if x[0] == "shr":
                    return one(bit(x[1], x[2]))
            return one(("mod", x, m))
        if h == "/":
            return one(("div",) + tuple(a))
        if h == "bit-shift-left":
            return one(("pow", ("num", 2), a[1]) if a[0] == ("num", 1) else ("shl", a[0], a[1]))
        if h == "bit-shift-right":
            return one(("shr", a[0], a[1]))
        if h == "bit-and":
            x, y = a
            if x[0] == "pow":
                x, y = y, x
            if y[0] == "pow" and y[1] == ("num", 2):
                return one(("bitmask", x, y[2])) if False else one(bit(x, y[2]))
            if y == ("num", 1) or x == ("num", 1):
                z = x if y == ("num", 1) else y
                return one(bit(z[1], z[2]) if z[0] == "shr" else bit(z, ZERO))
            return one(("bit-and",) + tuple(sorted(a, key=repr)))
        if h == "to-int":
            return one(a[0])                       # traps above i128, same value otherwise
        if h in HASH:
            return one((h, a[0]))
        if h == "concat":
            return one(concat(a[0], a[1]))
        if h == "buff-to-uint-le":
            return one(("uint-le", a[0]))
        if h == "buff-to-uint-be":
            return one(("uint-be", a[0]))
        if h == "to-consensus-buff?":
            x = a[0]
            if x[0] in ("uint-le", "uint-be") and blen(x[1]) is not None and blen(x[1]) <= 16:
                bs = bytesof(x[1])
                if x[0] == "uint-le":
                    bs = bs[::-1]
                bs = [("k", 0)] * (16 - len(bs)) + bs
                return one(("some", frombytes([("k", 1)] + bs)))
            return one(("opt", ("consensus", x)))
        if h == "as-max-len?":
            x, m = a
            if m[0] == "num" and blen(x) is not None:
                return one(("some", x) if blen(x) <= m[1] else NONE)
            return one(("opt", ("max-len", x, m)))
        if h == "slice?":
            x, lo, hi = a
            if lo[0] == hi[0] == "num" and blen(x) is not None:
                if lo[1] <= hi[1] <= blen(x):
                    return one(("some", frombytes(bytesof(x)[lo[1]:hi[1]])))
                return one(NONE)
            return one(("opt", ("slice?", x, lo, hi)))
        if h in ("element-at", "element-at?"):
            return one(("opt", ("element", a[0], a[1])))
        if h == "len":
            if blen(a[0]) is not None and a[0][0] != "arg":
                return one(("num", blen(a[0])))
            return one(("len", a[0]))
        if h == "list":
            return one(("list",) + tuple(a))
        if h == "print":
            return [(st.effect(("print", a[0])), "v", a[0])]
        if h in ("ft-get-balance", "ft-get-supply", "stx-get-balance"):
            return one((h,) + tuple(a) + ((len([e for e in st.eff if e[0].startswith("ft-")]),) if any(e[0].startswith("ft-") for e in st.eff) else ()))
        if h in ("ft-mint?", "ft-burn?", "ft-transfer?", "stx-transfer?", "stx-burn?", "nft-mint?", "nft-burn?", "nft-transfer?"):
            e = (h[:-1],) + tuple(a)
            key = ("ok?", e + (len([x for x in st.eff if x[0] != "print"]),) if False else e)
            if key in st.lits or neg(key) in st.lits:
                key = ("ok?", e + (len(st.eff),))
            return [(s.effect(e), "v", ("ok", TRUE)) if b else (s, "v", ("err", ("errval", e))) for s, b in self.branch(st, key)]
        if h in PURE:
            return one((h,) + tuple(a))
        self.err(n, f"unknown function {h}")

    def eqs(self, st, x, y):
        """the ways x = y can go, opening options"""
        if x[0] == "opt" and y[0] == "some" or x[0] == "some" and y[0] == "opt":
            if x[0] == "some":
                x, y = y, x
            out = []
            for s, b, p in self.split(st, x):
                out += self.branch(s, eq(p, y[1])) if b else [(s, False)]
            return out
        return self.branch(st, eq(x, y))


def bit(x, i):
    """bit i of x; adding a power of two that is at or above every bit asked for is seen by the caller"""
    return ("bit", x, i)


SPECIAL = {"begin", "let", "if", "and", "or", "asserts!", "try!", "unwrap!", "unwrap-err!", "unwrap-panic", "unwrap-err-panic", "default-to", "match", "is-some", "is-none", "is-ok", "is-err",
           "tuple", "get", "merge", "as-contract", "at-block", "var-get", "var-set", "map-get?", "map-set", "map-insert", "map-delete", "contract-call?", "fold", "map", "filter",
           "get-burn-block-info?", "get-block-info?"}


def committed(p):
    """a path of a public function whose effects stay: it returned, and not an error"""
    return p.kind == "v" and p.val[0] != "err"


def state_effects(p):
    return [e for e in p.eff if e[0] != "print"]
