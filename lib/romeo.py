"""The event loop's state machine as a transition table.

`update` is summarised once per (state variant, event variant): the new state
and the returned tasks are terms in which each request list is a pointwise map
over the old one. One generic element of a list is then put in every class of
request (not ordered, scheduled, created, acknowledged in each status, polled
or not) and the summaries read off: this is a complete table of what an event
can do to a request, for lists of any length."""
from fw import *
import fw, engine, models

ST, EV, TK = "romeo::state::State", "romeo::event::Event", "romeo::task::Task"
RQ, TS = "romeo::state::TransactionRequest", "romeo::event::TransactionStatus"
DP, WD = "romeo::state::Deposit", "romeo::state::Withdrawal"
UNINIT, DETECTED, KEYSETUP, INIT = "Uninitialized", "ContractDetected", "ContractPublicKeySetup", "Initialized"
STATES = (UNINIT, DETECTED, KEYSETUP, INIT)


class Shape(Exception):
    pass


def cases(t, limit=6000):
    """(literals, leaf): every choice of the conditions t selects on, also inside its parts"""
    out = []

    def first(t):
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x in seen or not x.g or x.op == "lam":
                continue
            seen.add(x)
            if x.op == "g":
                return x
            ks = list(fw.terms._kids(x.a))
            st += reversed(ks)
        return None

    def go(t, lits):
        if len(out) > limit:
            raise Shape("too many cases")
        x = first(t)
        if x is None:
            out.append((lits, t))
            return
        v, cs, df = x.a
        for l, _ in cs:
            go(restrict(t, [(v, l)]), lits + ((v, l),))
        if df is not None:
            n = ("not", tuple(l for l, _ in cs))
            r = subst_default(t, v, dict(cs))
            go(r, lits + ((v, n),))
    go(t, ())
    return out


def subst_default(t, v, cs):
    g = TRUE
    for l in cs:
        g = And(g, Not(lit(v, l)))
    return simp(g, t)


def gvars_deep(t):
    return {x.a[0] for x in subterms(t) if x.op == "g"}


class Machine:
    def __init__(self, c):
        self.c, self.prog = c, c.prog
        self.memo = {}
        for p in (ST, EV, TK, RQ, TS, DP, WD):
            if p not in self.prog.adts:
                raise Missing(p)
        self.k = settype(mk("sym", "k", ("num", "usize")), ("num", "usize"))
        self.cfg = mk("sym", "config", adt_t("romeo::config::Config"))

    # ---- names
    def vi(self, p, n):
        for i, v in enumerate(self.prog.adts[p]["v"]):
            if v["n"] == n:
                return i
        raise Missing(f"variant {n} of {p}")

    def vn(self, p, i):
        return self.prog.adts[p]["v"][i]["n"]

    def fi(self, p, n, v=None):
        vi = self.vi(p, v) if v else 0
        i = self.prog.field_index(p, n, vi)
        if i is None:
            raise Missing(f"field {n} of {p}")
        return i

    def vals(self, p, v, pre):
        i = self.vi(p, v)
        return [mk("sym", f"{pre}_{f['n']}", self.prog.field_type(adt_t(p), i, j)) for j, f in enumerate(self.prog.adts[p]["v"][i]["f"])]

    def state(self, v):
        return adt(ST, self.vi(ST, v), *self.vals(ST, v, "s"))

    def event(self, v, **kw):
        xs = self.vals(EV, v, "e")
        for n, x in kw.items():
            xs[int(n[1:])] = x
        return adt(EV, self.vi(EV, v), *xs)

    def sfield(self, t, v, n):
        """a field of a state term known to be of variant v"""
        if t.op != "adt" or t.a[1] != self.vi(ST, v):
            raise Shape(f"state is {show(t)[:80]}")
        return t.a[2 + self.fi(ST, n, v)]

    # ---- summaries
    def method(self, n):
        ids = [i for i, b in self.prog.bodies.items() if b["name"] in (f"{ST}::{n}",) and b["kind"] in ("fn", "method")]
        if len(ids) != 1:
            raise Missing(f"State::{n} ({len(ids)})")
        return ids[0]

    def step(self, sv, ev, **kw):
        key = (sv, ev, tuple(sorted(kw.items(), key=str)))
        if key not in self.memo:
            self.memo[key] = self.c.run(self.method("update"), [("mut", self.state(sv)), self.event(ev, **kw), self.cfg])
        return self.memo[key]

    def run_lists(self, ev, deposits, withdrawals, cfg=None, **kw):
        """update of an initialised state with given lists"""
        xs = self.vals(ST, INIT, "s")
        xs[self.fi(ST, "deposits", INIT)] = lst(list(deposits))
        xs[self.fi(ST, "withdrawals", INIT)] = lst(list(withdrawals))
        return self.c.run(self.method("update"), [("mut", adt(ST, self.vi(ST, INIT), *xs)), self.event(ev, **kw), cfg or self.cfg])

    def boot(self, sv):
        key = (sv, None)
        if key not in self.memo:
            self.memo[key] = self.c.run(self.method("bootstrap"), [("mut", self.state(sv))])
        return self.memo[key]

    def events(self):
        return [v["n"] for v in self.prog.adts[EV]["v"]]

    # ---- requests
    def req(self, cls, n):
        """an Option<TransactionRequest> in a class; symbols carry the name n"""
        if cls == "none":
            return NONE
        if cls == "scheduled":
            return Some(adt(RQ, self.vi(RQ, "Scheduled"), mk("sym", f"{n}_due", ("num", "u32"))))
        if cls == "created":
            return Some(adt(RQ, self.vi(RQ, "Created")))
        st, p = cls
        x = [None] * 3
        x[self.fi(RQ, "txid", "Acknowledged")] = self.txid(n)
        x[self.fi(RQ, "status", "Acknowledged")] = adt(TS, self.vi(TS, st))
        x[self.fi(RQ, "has_pending_task", "Acknowledged")] = TRUE if p else FALSE
        return Some(adt(RQ, self.vi(RQ, "Acknowledged"), *x))

    def txid(self, n):
        return mk("sym", f"{n}_txid", None)

    def classes(self):
        return ["none", "scheduled", "created"] + [(v["n"], p) for v in self.prog.adts[TS]["v"] for p in (False, True)]

    def cls(self, t):
        """(class, txid or due height) of a request option term, conditions already decided"""
        if t.op != "adt" or t.a[0] != OPT:
            raise Shape(f"request {show(t)[:120]}")
        if t.a[1] == 0:
            return "none", None
        r = t.a[2]
        if r.op != "adt" or r.a[0] != RQ:
            raise Shape(f"request {show(r)[:120]}")
        v = self.vn(RQ, r.a[1])
        if v == "Scheduled":
            return "scheduled", r.a[2]
        if v == "Created":
            return "created", None
        s = r.a[2 + self.fi(RQ, "status", v)]
        p = r.a[2 + self.fi(RQ, "has_pending_task", v)]
        return (self.vn(TS, s.a[1]) if s.op == "adt" else s, p is TRUE if p in (TRUE, FALSE) else p), r.a[2 + self.fi(RQ, "txid", v)]

    def lst(self, lst_name):
        return self.vals(ST, INIT, "s")[self.fi(ST, lst_name, INIT)]

    def make(self, lst_name, info, *reqs):
        p = DP if lst_name == "deposits" else WD
        x = [None] * self.prog.nfields(p, 0)
        x[self.fi(p, "info")] = info
        for n, r in reqs:
            x[self.fi(p, n)] = r
        return adt(p, 0, *x)

    def reqnames(self, lst_name):
        return ("mint",) if lst_name == "deposits" else ("burn", "fulfillment")

    def info(self, lst_name):
        return mk("sym", "own_info", self.prog.field_type(adt_t(DP if lst_name == "deposits" else WD), 0, self.fi(DP if lst_name == "deposits" else WD, "info")))

    def generic(self, lst_name):
        """every class combination of one element"""
        out = []
        for c in self.classes():
            if lst_name == "deposits":
                out.append((c,))
            else:
                out += [(c, d) for d in self.classes()]
        return out

    # ---- reading a summary
    def base(self, s, lst_name):
        """the list whose elements the new list is made of: the old one, perhaps with new elements after it"""
        X = self.lst(lst_name)
        Y = self.sfield(s.cell(0), INIT, lst_name)
        if Y is X or ln(Y) is ln(X):
            return Y, X
        for t in subterms(Y):
            if t.op == "cat" and len(t.a) > 1 and t.a[0] is mk("spr", X) and ln(t) is ln(Y):
                return Y, t
        raise Shape(f"{lst_name} becomes {show(Y)[:200]}: not the old list with elements added after it")

    def at(self, t, Z, elem, g=TRUE):
        """term t where g holds (BOT elsewhere), with the generic element of list Z replaced by elem"""
        t = select([(g, simp(g, t))])
        # the element that was looked up is this one, or it is another
        for v in sorted(gvars_deep(t), key=fw.terms.order):
            if v.op == "eq" and self.k in v.a:
                o = v.a[0] if v.a[1] is self.k else v.a[1]
                if o.op == "first" and o.a[0] is ln(Z):
                    t = select([(lit(v, 1), subst(restrict(t, [(v, 1)]), {o: self.k})), (lit(v, 0), restrict(t, [(v, 0)]))])
        return norm(subst(t, {nth(Z, self.k): elem}))

    def tasks(self, t, g=TRUE):
        """[(guard, kind, ...)]: ("one", task) and ("each", length, lam)"""
        out = []

        def go(t, g):
            for lits, x in paths(t):
                gg = g
                for v, l in lits:
                    gg = And(gg, litg(v, l))
                if gg is FALSE or x is BOT:
                    continue
                if x.op == "cat":
                    for p in x.a:
                        if p.op == "one":
                            out.append((gg, "one", p.a[0]))
                        else:
                            go(p.a[0], gg)
                elif x.op == "flat":
                    out.append((gg, "each", x.a[0], x.a[1]))
                elif x is not EMPTY:
                    raise Shape(f"tasks are {show(x)[:200]}")
        go(t, g)
        return out

    def task_name(self, t):
        if t.op != "adt" or t.a[0] != TK:
            raise Shape(f"task {show(t)[:120]}")
        return self.vn(TK, t.a[1])

    def each(self, s):
        """tasks of a step: single ones [(guard, name, task)] and the per-element ones {list: [(length, lam)]}"""
        ones, per = [], {"deposits": [], "withdrawals": []}
        bases = {n: self.base(s, n)[1] for n in per} if s.cell(0).op == "adt" and s.cell(0).a[1] == self.vi(ST, INIT) else {}
        for it in self.tasks(simp(s.cur, s.ret), s.cur):
            if it[1] == "one":
                for lits, x in cases(it[2]):
                    g = it[0]
                    for v, l in lits:
                        g = And(g, litg(v, l))
                    if g is not FALSE:
                        ones.append((g, self.task_name(x), x))
            else:
                hit = [n for n in bases if it[2] is ln(bases[n])]
                if len(hit) != 1:
                    raise Shape(f"tasks are made for each of {show(it[2])[:160]}")
                if And(s.cur, Not(it[0])) is not FALSE:
                    raise Shape(f"tasks are made for each element only when {show(it[0])[:160]}")
                per[hit[0]].append((it[2], it[3]))
        return ones, per

    def table(self, ev, sv=INIT):
        """rows (list, classes of the element's requests, conditions, new element, its tasks): what the event can
        do to an element of either list. ev None is the restart step."""
        s = self.step(sv, ev) if ev is not None else self.boot(sv)
        rows = []
        ones, per = self.each(s)
        for L in ("deposits", "withdrawals"):
            Y, Z = self.base(s, L)
            g = And(s.cur, lt(self.k, ln(Z)))
            E = nth(Y, self.k)
            own = cat([mk("spr", beta(l, [self.k])) for n, l in per[L]])
            for cl in self.generic(L):
                el = self.make(L, self.info(L), *[(n, self.req(x, n)) for n, x in zip(self.reqnames(L), cl)])
                for lits, x in cases(self.at(tup(E, own), Z, el, g)):
                    if x is BOT or x.a[2] is BOT:
                        continue
                    gg = TRUE
                    for v, l in lits:
                        gg = And(gg, litg(v, l))
                        for o in v.a if v.op == "eq" and l == 1 else ():
                            # the element found is one that was looked for
                            if isinstance(o, T) and o.op == "first" and o.a[0] is ln(Z):
                                gg = And(gg, boolify(subst(beta(o.a[1], [self.k]), {nth(Z, self.k): el})))
                    if gg is FALSE:
                        continue
                    rows.append(Row(L, cl, gg, el, x.a[2], x.a[3]))
        return rows

    def after(self, r):
        """[(class, txid/due)] of the requests of a row's new element"""
        p = DP if r.list == "deposits" else WD
        if r.new.op != "adt" or r.new.a[0] != p:
            raise Shape(f"an element of {r.list} becomes {show(r.new)[:160]}")
        return [self.cls(r.new.a[2 + self.fi(p, n)]) for n in self.reqnames(r.list)]

    def newinfo(self, r):
        p = DP if r.list == "deposits" else WD
        return r.new.a[2 + self.fi(p, "info")]


class Row:
    def __init__(self, lst, cls, g, old, new, tasks):
        self.list, self.cls, self.g, self.old, self.new, self.tasks = lst, cls, g, old, new, tasks


def litg(v, l):
    if isinstance(l, tuple) and l and l[0] == "not":
        g = TRUE
        for m in l[1]:
            g = And(g, Not(lit(v, m)))
        return g
    return lit(v, l)
