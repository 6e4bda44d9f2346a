"""What the relayer does around its state machine: the event loop, the tasks and the requests they make.

The event loop (`run`) is summarised with the state transitions left opaque: the summary lists, in order and with
the condition under which it happens, everything the loop does to its log, its state and its tasks. Each task is
summarised with its future awaited, so that the event it returns is a term over what the nodes answered to which request."""
from fw import *
from romeo import *
import fw, engine, models

EVT_T, TASK_T = adt_t(EV), adt_t(TK)
RUN = "romeo::system::run"


def root(t):
    """the place a value was before calls changed it through `&mut`, and those calls, newest first"""
    calls = []
    while t.op == "mut":
        calls.append(t.a[0])
        t = t.a[0].a[2][t.a[1]]
    return t, calls


def is_call(t, *names):
    return t.op == "call" and any(t.a[0] == n or t.a[0].endswith("::" + n) for n in names)


def cargs(t):
    return t.a[2]


def success(x):
    return is_label(engine.ENG.discr(x), 0)


def payload(t, v=0):
    return t.a[0].a[0] if t.op == "fld" and t.a[1] in (0, ZERO) and t.a[0].op in ("as", "vfld") and t.a[0].a[1] == v else None


def arun(c, bid, args=None, opaque=(), subs=()):
    """summary of an async function, awaited"""
    s = c.run(bid, args, subs, opaque=list(opaque))
    e = s.e
    r = models.await_(e, s.ret)
    s.cur = e.cur
    s.ret = simp(e.cur, e.deep(r)) if r is not BOT else BOT
    return s


class Life:
    """the event loop, with the state machine's steps opaque"""

    def __init__(self, c):
        self.c, self.M = c, Machine(c)
        b = c.fn(RUN)
        self.upd, self.boot = self.M.method("update"), self.M.method("bootstrap")
        self.s = arun(c, b, None, [self.upd, self.boot])
        self.cfg = self.s.args[0] if self.s.args else None
        self.lvinfo = dict(self.s.e.lvinfo)
        self.calls = [r for r in self.s.log if r.kind == "call"]
        recv = [r for r in self.calls if r.name.endswith("::Receiver::recv")]
        if len(recv) != 1 or len(recv[0].loops) != 1:
            raise Missing(f"one loop that receives events ({len(recv)} receives found)")
        self.recv = recv[0]
        self.loop = self.recv.loops[0]
        self.event = engine.ENG.proj(engine.ENG.proj(mk("await", self.recv.res), ("v", 1)), ("f", 0))
        ups = [r for r in self.calls if r.name.endswith("State::update")]
        self.live = [r for r in ups if self.loop in r.loops]
        self.replays = [r for r in ups if self.loop not in r.loops]

    def at(self, r):
        return f"{r.site} {r.fn}"

    def inloop(self):
        return [r for r in self.calls if self.loop in r.loops]

    def origin(self, t, limit=40):
        """the call that opened the file a handle, buffer or line reader works on"""
        for _ in range(limit):
            t, _c = root(t)
            if t.op == "lv" or t.op == "while":
                t = self.initial(t)
            elif t.op == "fld" and t.a[0].op in ("as", "vfld"):
                t = t.a[0].a[0]
            elif t.op == "await":
                t = t.a[0]
            elif is_call(t, "OpenOptions::open", "File::open", "File::create"):
                return t
            elif t.op == "call" and t.a[2]:
                t = t.a[2][0]
            else:
                return t
        return t

    def loopvar(self, t):
        """(first value, next value, goes on while, loop)"""
        l = self.loopsym(t)
        i = self.lvinfo.get(l)
        if i is None or isinstance(i, T):
            return None
        # a first value given by where it is stored, as seen from outside of the function
        if any(x.op == "ptr" for x in subterms(i[0])):
            w = next((w for w, v in self.lvinfo.items() if v is l), None)
            for x in self.whiles():
                if w is not None and x.a[1] is w.a[1] and not any(y.op == "ptr" for y in subterms(x.a[2][w.a[0]])):
                    return (x.a[2][w.a[0]],) + tuple(i[1:])
        return i

    def loopsym(self, t):
        if t.op == "while" and t not in self.lvinfo:
            # the loop as last summarised, its first values seen from elsewhere
            for w, v in reversed(list(self.lvinfo.items())):
                if isinstance(v, T) and w.op == "while" and w.a[:2] == t.a[:2]:
                    return v
        v = self.lvinfo.get(t)
        return v if isinstance(v, T) else t

    def whiles(self):
        if not hasattr(self, "_whiles"):
            self._whiles = list({x for r in self.calls for a in r.args if isinstance(a, T) for x in subterms(a) if x.op == "while"})
        return self._whiles

    def initial(self, t):
        i = self.loopvar(t)
        if i is None:
            raise Missing("where the value " + show(t)[:80] + " comes from")
        return i[0]


# ---- what was asked and what was answered
def unwrap(t):
    """through payloads of Ok/Some, awaits and waits for a lock"""
    while True:
        if t.op == "fld" and t.a[0].op in ("as", "vfld") and t.a[1] in (0, ZERO):
            t = t.a[0].a[0]
        elif t.op == "await":
            t = t.a[0]
        else:
            return t


class Req:
    """an HTTP request: method, base address, path, query, headers, body"""

    def __init__(self):
        self.method = self.base = self.path = self.body = None
        self.query, self.headers = [], []

    def key(self):
        return (self.method, self.base, self.path, self.body)

    def __repr__(self):
        return f"{self.method} {show(self.base)[:60]} + {show(self.path)[:120]}"


def requests(t):
    """the requests a term may stand for, each with its condition"""
    out = []
    for x in leaves(t):
        if x is not BOT:
            out.append((is_path(t, x), request(x)))
    return out


def request(t):
    t = unwrap(t)
    if t.op == "g":
        rs = {r.key(): r for g, r in requests(t)}
        if len(rs) != 1:
            raise Shape(f"different requests: {list(rs.values())}")
        hs = [r.headers for g, r in requests(t)]
        r = list(rs.values())[0]
        r.headers = [h for h in hs[0] if all(h in x for x in hs[1:])]
        r.optional = [h for x in hs for h in x if h not in r.headers]
        return r
    if t.op != "call":
        raise Shape(f"request {show(t)[:120]}")
    n = t.a[0].split("::")[-1]
    a = t.a[2]
    if n == "build":
        return request(a[0])
    if n == "from_parts":
        return request(a[1])
    if n in ("header", "headers", "bearer_auth", "basic_auth"):
        r = request(a[0])
        r.headers = r.headers + [(n,) + tuple(a[1:])]
        return r
    if n in ("body", "json", "form"):
        r = request(a[0])
        if r.body is not None:
            raise Shape("a second body")
        r.body = a[1] if n == "body" else mk("tup", n, a[1])
        return r
    if n in ("timeout", "version"):
        return request(a[0])
    if n == "query":
        r = request(a[0])
        r.query = r.query + [a[1]]
        return r
    if n in ("get", "post", "put", "delete", "patch", "head") and "Client::" in t.a[0]:
        r = Req()
        r.method = n
        r.http = a[0]
        return url(a[1], r)
    if n == "request" and "Client::" in t.a[0]:
        r = Req()
        r.method = show(a[1])
        r.http = a[0]
        return url(a[2], r)
    raise Shape(f"request made by {t.a[0]}")


def url(t, r):
    t = unwrap(t)
    if t.op == "g":
        rs = {}
        for x in leaves(t):
            if x is not BOT:
                q = url(x, Req())
                rs[(q.base, q.path)] = q
        if len(rs) != 1:
            raise Shape("different addresses: " + show(t)[:200])
        (r.base, r.path), = rs
        return r
    if t.op == "mut":
        k = t.a[0].a[0].split("::")[-1]
        if k != "set_query":
            raise Shape("address changed by " + k)
        r.query = r.query + [t.a[0].a[2][1]]
        return url(t.a[0].a[2][t.a[1]], r)
    if is_call(t, "Url::join"):
        r.base, r.path = t.a[2][0], norm(t.a[2][1])
        return r
    raise Shape("address " + show(t)[:160])


PASS = {"from_str": 0, "from_slice": 0, "text": 0, "bytes": 0, "json": 0, "error_for_status": 0, "as_u64": 0, "as_str": 0, "as_i64": 0, "as_array": 0, "as_bool": 0, "to_owned": 0, "to_string": 0}


class Answer:
    def __init__(self, req, keys, steps):
        self.req, self.keys, self.steps = req, keys, steps

    def __repr__(self):
        return f"{self.req} -> {'.'.join(self.keys)}"


def answer(t):
    """the request whose answer t is a part of, and which part"""
    keys, steps = [], []
    while True:
        t = unwrap(t)
        if t.op == "cast":
            steps.append("cast")
            t = t.a[1] if isinstance(t.a[1], T) else t.a[-1]
        elif t.op == "cat" and len(t.a) == 1 and t.a[0].op == "spr":
            t = t.a[0].a[0]
        elif t.op == "call":
            n = t.a[0].split("::")[-1]
            if n == "execute" and "Client" in t.a[0]:
                return Answer(request(t.a[2][1]), tuple(reversed(keys)), steps)
            if n == "send" and "RequestBuilder" in t.a[0]:
                return Answer(request(t.a[2][0]), tuple(reversed(keys)), steps)
            if n in ("index", "get") and len(t.a[2]) == 2:
                keys.append(t.a[2][1].a[0] if t.a[2][1].op == "str" else show(t.a[2][1]))
                t = t.a[2][0]
            elif n in PASS:
                steps.append(n)
                t = t.a[2][PASS[n]]
            else:
                raise Shape(f"an answer that went through {t.a[0]}")
        else:
            raise Shape(f"not a part of an answer: {show(t)[:160]}")


def path_is(r, *parts):
    """the path of a request is the concatenation of these pieces"""
    want = norm(cat([mk("spr", S(p) if isinstance(p, str) else p) for p in parts])) if not (len(parts) == 1 and isinstance(parts[0], str)) else S(parts[0])
    return norm(r.path) is want


def disp(x):
    return mk("disp", x)


class Tasks:
    """the futures the event loop spawns, run for one task variant at a time"""

    def __init__(self, c, opaque=()):
        self.c, self.M = c, Machine(c)
        self.opaque = [b for b in c.prog.bodies if any(c.prog.bodies[b]["name"].endswith(o) for o in opaque)]
        self.memo = {}
        L = self.L = Life(c)
        self.spawns = [r for r in L.calls if r.name.endswith("task::spawn::spawn")]
        if not self.spawns:
            raise Missing("tasks the event loop spawns")
        self.futures = [self.parts(r) for r in self.spawns]  # before the types of this run are forgotten

    def parts(self, r):
        """the future spawned by a record, and its captures with the type each has"""
        f = r.args[0]
        if f.op != "cor":
            raise Shape("what is spawned: " + show(f)[:100])
        return f, [(adt_name(self.L.s.e, x), x) for x in f.a[2:]]

    def run(self, variant):
        if variant in self.memo:
            return self.memo[variant]
        M, c = self.M, self.c
        f, d = self.futures[[i for i, x in enumerate(self.spawns) if self.L.loop in x.loops][-1]]
        task = adt(TK, M.vi(TK, variant), *M.vals(TK, variant, "t"))
        new = []
        for t, x in d:
            short = t.split("::")[-1]
            new.append(task if t == TK else mk("sym", {"Config": "config", "LockedClient": "stacks", "Client": "bitcoin", "Sender": "out"}.get(short, short), adt_t(t)))
        e = engine.Engine(c.prog)
        e.no_inline = set(self.opaque)
        models.await_(e, mk("cor", f.a[0], f.a[1], *new))
        c.functions |= e.inlined
        sends = [x for x in e.log if x.kind == "call" and x.name.endswith("Sender::send")]
        if len(sends) != 1:
            raise Shape(f"{variant} reports {len(sends)} times")
        t = Ran()
        t.task, t.e, t.log, t.send = task, e, e.log, sends[0]
        t.vals = task.a[2:]
        t.guard = sends[0].guard
        t.event = simp(t.guard, sends[0].args[1])
        t.where = f"{sends[0].site} {variant}"
        t.syms = {x.a[0]: x for x in new if x.op == "sym"}
        t.cfg = t.syms["config"]
        self.memo[variant] = t
        return t


class Ran:
    def calls(self, suffix):
        return [r for r in self.log if r.kind == "call" and r.name.endswith(suffix)]


def adt_name(e, x):
    if x.op == "adt" and x.a[0] != "()":
        return x.a[0]
    t = unref(tyof(x))
    return t[1] if t is not None and t[0] == "adt" else "?"


def field(c, t, name):
    """a field of a struct term"""
    return c.fld(t, name)


def is_config_field(c, x, name):
    """x is that field of the configuration (which the clients also hold)"""
    P = "romeo::config::Config"
    i = c.prog.field_index(P, name, 0)
    if i is None:
        raise Missing(f"{name} in the configuration")
    if x.op != "fld" or x.a[1] != i:
        return False
    t = unref(tyof(x.a[0]))
    if t is not None:
        return t[0] == "adt" and t[1] == P
    y = x.a[0]  # behind a lock: the client's only field of that type
    return y.op == "fld" and y.a[0].op == "await" and unref(tyof(x)) == unref(c.prog.field_type(adt_t(P), 0, i))


def by_key(c, t, val):
    """the cases of a value by whether an API key is configured (which only adds a header)"""
    vs = {x.a[0] for x in subterms(val) if x.op == "g"} | {x.a[0] for x in subterms(t.guard) if x.op == "g"}
    keyed = [v for v in vs if v.op == "discr" and v.a[0].op == "fld" and is_config_field(c, v.a[0], "hiro_api_key")]
    out = []
    for some in (0, 1):
        lits = [(v, some) for v in keyed]
        x = restrict(val, lits) if lits else val
        g = restrict(t.guard, lits) if lits else t.guard
        out.append(("with a key" if some else "without a key", g, simp(g, x)))
        if not lits:
            break
    return out


class Rpc:
    def __init__(self, name, args, client):
        self.name, self.args, self.client = name, args, client

    def __repr__(self):
        return f"{self.name}({', '.join(show(a)[:60] for a in self.args)})"


def rpc(t):
    """the node call whose result t is"""
    t = unwrap(t)
    if t.op == "call" and "RpcApi::" in t.a[0]:
        return Rpc(t.a[0].split("::")[-1], t.a[2][1:], t.a[2][0])
    raise Shape("not the result of a call to the bitcoin node: " + show(t)[:160])


def same_leaves(t, f):
    """f of every case of t, all equal"""
    rs = [f(x) for x in leaves(t) if x is not BOT]
    return rs
