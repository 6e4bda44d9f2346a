"""State machine table as in P17, for the polling flag: what a restart does to each class of request, and
which block events hand out a status check for which classes; the key setup request is read the same way
in its own state."""
from fw import *
from romeo import *
import p17

SCOPE = "romeo"
LEVEL = "other"
RULE = "after a restart no request counts as being polled and nothing else about it changed; a block event hands out exactly one status check, for the request's own transaction id, for each broadcast request not being polled, and marks it; no other request is polled, and none is marked without a check"
ASSUME = ["tasks handed out are run"]

CHECK = {"mint": "CheckStacksTransactionStatus", "burn": "CheckStacksTransactionStatus", "fulfillment": "CheckBitcoinTransactionStatus"}
POLL = {"mint": "StacksBlock", "burn": "StacksBlock", "fulfillment": "BitcoinBlock"}


def restart(c):
    M = Machine(c)
    s = M.boot(INIT)
    bad = {}
    for r in M.table(None):
        for q, c0, (c1, x) in zip(M.reqnames(r.list), r.cls, M.after(r)):
            want = (c0[0], False) if isinstance(c0, tuple) else c0
            if c1 != want:
                bad[f"class:{q}:{c0}"] = f"a {q} that is {c0} becomes {c1}"
            if isinstance(c0, tuple) and x is not M.txid(q):
                bad["txid:" + q] = f"the transaction id of a {q} becomes {show(x)}"
        if r.tasks is not EMPTY:
            bad["tasks"] = f"a request is given tasks {show(r.tasks)[:120]}"
    for k, m in bad.items():
        c.fact(False, f"restart:{k}", s.where(), f"restart: {m}")
    if not bad:
        c.fact(True, "restart", s.where(), "after a restart every acknowledged request is open to polling and otherwise as it was")


def polled(c):
    M = Machine(c)
    for ev in M.events() + [None]:
        s = M.step(INIT, ev) if ev is not None else M.boot(INIT)
        if s.cur is FALSE:
            continue
        n = p17.evname(ev)
        bad, hits = {}, 0
        for r in M.table(ev):
            want = []
            for q, c0, (c1, x) in zip(M.reqnames(r.list), r.cls, M.after(r)):
                if ev == POLL[q] and c0 == ("Broadcasted", False):
                    want.append((CHECK[q], (M.txid(q),)))
                    hits += 1
                    if c1 != ("Broadcasted", True):
                        bad["mark:" + q] = f"a {q} that is polled becomes {c1}: it is not marked"
                elif isinstance(c1, tuple) and c1[1] is not False and c1 != c0:
                    bad["mark-only:" + q] = f"a {q} that is {c0} becomes {c1} without a check"
            got = [t for t in p17.tasks_of(M, r.tasks) if t[0] in CHECK.values()]
            if sorted(map(str, got)) != sorted(map(str, want)):
                bad["checks"] = f"requests {r.cls} of {r.list} get the checks {got}, not {want}"
        for k, m in bad.items():
            c.fact(False, f"poll:{n}:{k}", s.where(), f"{n}: {m}")
        if not bad:
            c.fact(True, f"poll:{n}", s.where(), f"{n}: exactly the open broadcast requests are polled ({hits} rows)")
        for g, name, t in M.each(s)[0]:
            c.fact(name not in CHECK.values(), f"single:{n}:{name}", s.where(), f"{n} polls {show(t)[:100]} which belongs to no recorded request")


def keysetup(c):
    M = Machine(c)
    fi = M.fi(ST, "public_key_setup", KEYSETUP)
    sym = M.sfield(M.state(KEYSETUP), KEYSETUP, "public_key_setup")
    for cl in M.classes():
        if cl == "none":
            continue
        req = M.req(cl, "key").a[2]
        for ev in M.events() + [None]:
            s = M.step(KEYSETUP, ev) if ev is not None else M.boot(KEYSETUP)
            if s.cur is FALSE:
                continue
            n = p17.evname(ev)
            w = f"key:{cl}:{n}"
            t = norm(subst(select([(s.cur, tup(s.cell(0), s.ret))]), {sym: req}))
            for lits, x in cases(t):
                if x is BOT:
                    continue
                st, ts = x.a[2], x.a[3]
                got = [t for t in p17.tasks_of(M, ts) if t[0] in CHECK.values()]
                if st.op != "adt" or M.vn(ST, st.a[1]) != KEYSETUP:
                    c.fact(not got, w + ":left", s.where(), f"{w}: polls {got} after leaving the state")
                    continue
                c1, x1 = M.cls(Some(st.a[2 + fi]))
                want, wc = [], cl
                if ev is None and isinstance(cl, tuple):
                    wc = (cl[0], False)
                if ev == "StacksBlock" and cl == ("Broadcasted", False):
                    want, wc = [("CheckStacksTransactionStatus", (M.txid("key"),))], ("Broadcasted", True)
                c.fact(got == want, w + ":check", s.where(), f"{w}: polls {got}, not {want}")
                if ev != "StacksTransactionUpdate":
                    c.fact(c1 == wc, w + ":mark", s.where(), f"{w}: the key setup becomes {c1}, not {wc}")


PARTS = [restart, polled, keysetup]
