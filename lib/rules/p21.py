"""State machine table as in P17, for the two status-update events, in every class of request and every
case of its transaction id against the event's; that the update goes through is shown on lists that hold
the request concerned next to requests in every other class."""
from fw import *
from romeo import *
import p17

SCOPE = "romeo"
LEVEL = "other"
RULE = "an acknowledged request of the event's chain whose transaction id is the event's takes the event's status and is no longer being polled; every other request keeps status, transaction id and polling mark; the update never aborts because of other requests"
ASSUME = ["transaction ids of different broadcasts on one chain differ, unless a broadcast failed"]

OF = {"StacksTransactionUpdate": ("mint", "burn"), "BitcoinTransactionUpdate": ("fulfillment",)}


def only_its_own(c):
    M = Machine(c)
    for ev, reqs in OF.items():
        s = M.step(INIT, ev)
        e = M.event(ev)
        tx, st = e.a[2], e.a[3]
        bad, hits = {}, 0
        for r in M.table(ev):
            for q, c0, (c1, x) in zip(M.reqnames(r.list), r.cls, M.after(r)):
                if not isinstance(c0, tuple):
                    if isinstance(c1, tuple):
                        bad["from:" + q] = f"a {q} that is {c0} becomes {c1}"
                    continue
                same = eq(tx, M.txid(q)) if q in reqs else FALSE
                g1, g0 = And(r.g, same), And(r.g, Not(same))
                if g1 is not FALSE and g0 is not FALSE and (c1, x) != (c0, M.txid(q)):
                    bad["which:" + q] = f"a {q} that is {c0} becomes {c1} whether or not the event is about its transaction"
                elif g0 is FALSE:
                    hits += 1
                    if c1 != (st, False) or x is not M.txid(q):
                        # the row of one status the event can have
                        k = [l for v, l in lits_of(r.g) if v is mk_discr(M, st)]
                        if not (c1[1] is False and isinstance(c1[0], str) and x is M.txid(q) and k and M.vi(TS, c1[0]) == k[0]):
                            bad["status:" + q] = f"a {q} that is {c0} becomes {c1} with transaction id {show(x)}, not the event's status"
                elif (c1, x) != (c0, M.txid(q)):
                    bad["other:" + q] = f"a {q} that is {c0}, which the event is not about, becomes {c1}"
                elif g1 is not FALSE:
                    bad["missed:" + q] = f"a {q} that is {c0} keeps its status though the event is about its transaction"
        for k, m in bad.items():
            c.fact(False, f"update:{ev}:{k}", s.where(), f"{ev}: {m}")
        if not bad:
            c.fact(hits > 0, f"update:{ev}", s.where(), f"{ev}: exactly the requests with the event's transaction id take its status ({hits} rows)")


def lits_of(g):
    for lits, x in paths(g):
        if x is TRUE:
            return list(lits)
    return []


def mk_discr(M, t):
    return engine.ENG.discr(t)


def others_dont_abort(c):
    M = Machine(c)
    for ev, reqs in OF.items():
        e = M.event(ev)
        tx, st = e.a[2], e.a[3]
        for q in reqs:
            L = "deposits" if q == "mint" else "withdrawals"
            for cl in M.classes():
                # the request concerned, polled, first and last among requests of this class
                for order in (0, 1):
                    els = {"deposits": [], "withdrawals": []}
                    tag = {}
                    for X in els:
                        els[X].append(M.make(X, mk("sym", f"i_{X}", tyof(M.info(X))), *[(n, M.req(cl, "o" + n)) for n in M.reqnames(X)]))
                    mine = ack(M, tx)
                    me = M.make(L, M.info(L), *[(n, mine if n == q else NONE if n == "fulfillment" else M.req("created", "x")) for n in M.reqnames(L)])
                    els[L].insert(order * len(els[L]), me)
                    s = M.run_lists(ev, els["deposits"], els["withdrawals"])
                    # other requests' ids are not this one's; only failed Stacks broadcasts of a node that is
                    # not strict share their placeholder
                    g = TRUE
                    for n in ("omint", "oburn", "ofulfillment"):
                        if isinstance(cl, tuple):
                            g = And(g, Not(eq(tx, M.txid(n))))
                    if ev == "StacksTransactionUpdate":
                        g = Or(g, Not(boolify(c.fld(M.cfg, "strict"))))
                    if ev == "BitcoinTransactionUpdate":
                        # a rejected fulfilment may stop a strict node
                        g = And(g, Not(is_label(mk_discr(M, st), M.vi(TS, "Rejected"))))
                    c.fact(And(g, Not(s.cur)) is FALSE, f"through:{ev}:{q}:{cl}:{order}", s.where(), f"{ev} for a polled {q} next to requests that are {cl} does not go through: it needs {show(s.cur)[:200]}")


def ack(M, tx):
    x = [None] * 3
    x[M.fi(RQ, "txid", "Acknowledged")] = tx
    x[M.fi(RQ, "status", "Acknowledged")] = adt(TS, M.vi(TS, "Broadcasted"))
    x[M.fi(RQ, "has_pending_task", "Acknowledged")] = TRUE
    return Some(adt(RQ, M.vi(RQ, "Acknowledged"), *x))


def keysetup(c):
    """the setup transaction's own status starts the node, and nothing else does"""
    M = Machine(c)
    ev = "StacksTransactionUpdate"
    s = M.step(KEYSETUP, ev)
    e = M.event(ev)
    fi = M.fi(ST, "public_key_setup", KEYSETUP)
    sym = M.sfield(M.state(KEYSETUP), KEYSETUP, "public_key_setup")
    for cl in M.classes():
        if cl == "none":
            continue
        own = {sym: M.req(cl, "key").a[2]}
        t = norm(subst(select([(s.cur, s.cell(0))]), own))
        for v in M.prog.adts[TS]["v"]:
            stv = adt(TS, M.vi(TS, v["n"]))
            t2 = norm(subst(t, {e.a[3]: stv}))
            cur = boolify(norm(subst(subst(s.cur, own), {e.a[3]: stv})))
            for lits, x in cases(t2):
                if x is BOT:
                    continue
                g = cur
                for a, l in lits:
                    g = And(g, litg(a, l))
                if g is FALSE:
                    continue
                same = eq(e.a[2], M.txid("key"))
                n = M.vn(ST, x.a[1])
                w = f"key:{cl}:{v['n']}"
                if n == INIT:
                    c.fact(isinstance(cl, tuple) and v["n"] == "Confirmed" and And(g, Not(same)) is FALSE, w + ":start", s.where(), f"{w}: the node starts although its key setup is not confirmed by this event ({show(g)[:120]})")
                else:
                    c1, x1 = M.cls(Some(x.a[2 + fi]))
                    keep = c1 == cl
                    take = isinstance(cl, tuple) and c1 == (v["n"], False) and v["n"] != "Confirmed" and And(g, Not(same)) is FALSE
                    c.fact(keep and (And(g, same) is FALSE or not (isinstance(cl, tuple) and cl[1])) or take, w + ":take", s.where(), f"{w}: the key setup becomes {c1} when {show(g)[:120]}")


PARTS = [only_its_own, others_dont_abort, keysetup]
