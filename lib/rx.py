"""Regular expressions as languages: parses the subset used for validation into an automaton and decides
whether two expressions, used with unanchored search, accept the same strings. Raises ValueError on anything
outside the subset."""
import itertools
MAXC = 0x10FFFF


class NFA:
    def __init__(self):
        self.eps, self.tr = [], []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1


def norm_ranges(rs, neg=False):
    rs = sorted(rs)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    if not neg:
        return tuple(out)
    r, p = [], 0
    for a, b in out:
        if a > p:
            r.append((p, a - 1))
        p = b + 1
    if p <= MAXC:
        r.append((p, MAXC))
    return tuple(r)


# the non-ASCII members of the Unicode classes are represented by a few blocks
CLS = {"d": [(48, 57), (0x660, 0x669)], "w": [(48, 57), (65, 90), (95, 95), (97, 122), (0xC0, 0x24F), (0x660, 0x669)], "s": [(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0)]}
ESC = {"n": 10, "t": 9, "r": 13, "f": 12, "v": 11, "a": 7}


class P:
    def __init__(self, s):
        self.s, self.i = s, 0

    def peek(self, n=1):
        return self.s[self.i:self.i + n]

    def alt(self):
        r = [self.seq()]
        while self.peek() == "|":
            self.i += 1
            r.append(self.seq())
        return ("alt", r) if len(r) > 1 else r[0]

    def seq(self):
        r = []
        while self.i < len(self.s) and self.peek() not in "|)":
            r.append(self.rep())
        return ("seq", r)

    def rep(self):
        a = self.atom()
        while self.i < len(self.s) and self.peek() in "*+?{":
            ch = self.peek()
            self.i += 1
            if ch == "{":
                j = self.s.index("}", self.i)
                b = self.s[self.i:j]
                self.i = j + 1
                lo, _, hi = b.partition(",")
                lo = int(lo)
                hi = lo if _ == "" else (None if hi == "" else int(hi))
            else:
                lo, hi = {"*": (0, None), "+": (1, None), "?": (0, 1)}[ch]
            if self.peek() == "?":
                self.i += 1
            a = ("rep", a, lo, hi)
        return a

    def esc(self, incls):
        ch = self.peek()
        self.i += 1
        if ch in CLS:
            return list(CLS[ch])
        if ch.lower() in CLS:
            return list(norm_ranges(CLS[ch.lower()], True))
        if ch in ESC:
            return [(ESC[ch],) * 2]
        if ch == "x":
            if self.peek() == "{":
                j = self.s.index("}", self.i)
                v = int(self.s[self.i + 1:j], 16)
                self.i = j + 1
            else:
                v = int(self.peek(2), 16)
                self.i += 2
            return [(v, v)]
        if ch.isalnum():
            if not incls and ch in "Az":
                return ch
            raise ValueError("escape \\" + ch)
        return [(ord(ch),) * 2]

    def atom(self):
        ch = self.peek()
        self.i += 1
        if ch == "(":
            if self.peek() == "?":
                if self.peek(2) == "?:":
                    self.i += 2
                elif self.peek(3) == "?P<" or self.peek(2) == "?<":
                    self.i = self.s.index(">", self.i) + 1
                else:
                    raise ValueError("flags")
            r = self.alt()
            if self.peek() != ")":
                raise ValueError("group")
            self.i += 1
            return r
        if ch == "[":
            neg = self.peek() == "^"
            if neg:
                self.i += 1
            rs, first = [], True
            while self.peek() != "]" or first:
                first = False
                if self.peek(2) == "[:":
                    j = self.s.index(":]", self.i)
                    n = self.s[self.i + 2:j]
                    self.i = j + 2
                    rs += {"alpha": [(65, 90), (97, 122)], "digit": [(48, 57)], "alnum": [(48, 57), (65, 90), (97, 122)], "lower": [(97, 122)], "upper": [(65, 90)], "word": [(48, 57), (65, 90), (95, 95), (97, 122)]}[n]
                    continue
                if self.peek(2) in ("&&", "--", "~~") or self.peek() == "[":
                    raise ValueError("class operation")
                c = self.peek()
                self.i += 1
                lo = self.esc(True) if c == "\\" else [(ord(c),) * 2]
                if self.peek() == "-" and self.peek(2) != "-]" and len(lo) == 1 and lo[0][0] == lo[0][1]:
                    self.i += 1
                    c = self.peek()
                    self.i += 1
                    hi = self.esc(True) if c == "\\" else [(ord(c),) * 2]
                    rs.append((lo[0][0], hi[0][0]))
                else:
                    rs += lo
            self.i += 1
            return ("cls", norm_ranges(rs, neg))
        if ch == ".":
            return ("cls", norm_ranges([(10, 10)], True))
        if ch == "^":
            return ("bol",)
        if ch == "$":
            return ("eol",)
        if ch == "\\":
            r = self.esc(False)
            if r == "A":
                return ("bol",)
            if r == "z":
                return ("eol",)
            return ("cls", norm_ranges(r))
        if ch in "*+?{":
            raise ValueError("quantifier")
        return ("cls", ((ord(ch), ord(ch)),))


def parse(s):
    p = P(s)
    r = p.alt()
    if p.i != len(s):
        raise ValueError("trailing")
    return r


def build(n, t):
    """(start, end)"""
    k = t[0]
    if k == "cls":
        a, b = n.new(), n.new()
        n.tr[a].append((t[1], b))
        return a, b
    if k in ("bol", "eol"):
        a, b = n.new(), n.new()
        n.eps[a].append((k, b))
        return a, b
    if k == "seq":
        a = b = n.new()
        for x in t[1]:
            s, e = build(n, x)
            n.eps[b].append((None, s))
            b = e
        return a, b
    if k == "alt":
        a, b = n.new(), n.new()
        for x in t[1]:
            s, e = build(n, x)
            n.eps[a].append((None, s))
            n.eps[e].append((None, b))
        return a, b
    if k == "rep":
        _, x, lo, hi = t
        a = b = n.new()
        for _i in range(lo):
            s, e = build(n, x)
            n.eps[b].append((None, s))
            b = e
        if hi is None:
            s, e = build(n, x)
            n.eps[b].append((None, s))
            n.eps[e].append((None, b))
            return a, b
        f = n.new()
        n.eps[b].append((None, f))
        for _i in range(hi - lo):
            s, e = build(n, x)
            n.eps[b].append((None, s))
            n.eps[e].append((None, f))
            b = e
        return a, f
    raise ValueError(k)


class DFA:
    """search semantics"""

    def __init__(self, s):
        self.n = NFA()
        self.start, self.end = build(self.n, parse(s))

    def close(self, st, bol, eol):
        out, w = set(st), list(st)
        while w:
            x = w.pop()
            for k, y in self.n.eps[x]:
                if k == "bol" and not bol or k == "eol" and not eol:
                    continue
                if y not in out:
                    out.add(y)
                    w.append(y)
        return frozenset(out)

    def init(self):
        return self.mk(frozenset([self.start]), True)

    def mk(self, core, bol):
        c = self.close(core, bol, False)
        return True if self.end in c else (c, bol)

    def step(self, q, ch):
        if q is True:
            return True
        c = set([self.start])
        for x in q[0]:
            for rs, y in self.n.tr[x]:
                if any(a <= ch <= b for a, b in rs):
                    c.add(y)
        return self.mk(frozenset(c), False)

    def accepts(self, q):
        return q is True or self.end in self.close(q[0], q[1], True)

    def points(self):
        out = {0}
        for l in self.n.tr:
            for rs, _ in l:
                for a, b in rs:
                    out.add(a)
                    if b < MAXC:
                        out.add(b + 1)
        return out


def difference(a, b):
    """a string that exactly one of the two expressions accepts, or None"""
    x, y = DFA(a), DFA(b)
    reps = sorted(x.points() | y.points())
    q = (x.init(), y.init())
    seen = {q: ""}
    w = [q]
    while w:
        nw = []
        for q in w:
            if x.accepts(q[0]) != y.accepts(q[1]):
                return seen[q]
            for ch in reps:
                r = (x.step(q[0], ch), y.step(q[1], ch))
                if r not in seen:
                    seen[r] = seen[q] + chr(ch)
                    w2 = nw.append(r)
        w = nw
    return None


if __name__ == "__main__":
    A = "^([a-zA-Z](([a-zA-Z0-9]|[-_])){0,39})$|^__transient$"
    print(difference(A, A), difference(A, "^[a-zA-Z][a-zA-Z0-9_-]{0,39}$|^__transient$"), difference(A, "^(?:[A-Za-z][-\\w]{0,39}|__transient)$"), difference(A, "[a-zA-Z](([a-zA-Z0-9]|[-_])){0,39}$|^__transient$"),
          difference(A, "^([a-zA-Z](([a-zA-Z0-9]|[-_])){0,39})|^__transient$"), difference(A, "^([a-zA-Z](([a-zA-Z0-9]|[-_])){0,127})$|^__transient$"))
