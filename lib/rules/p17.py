"""The event loop's `update` and `bootstrap` are summarised for every state and event variant; each
request list of the new state is a term that gives the new element from the old one. One generic element,
in every class a request can be in (not ordered, scheduled, ordered, broadcast/confirmed/rejected, polled
or not), is put through each of them: a complete table of what any event can do to a request, for lists of
any length, from which the rule is read off."""
from fw import *
from romeo import *

SCOPE = "romeo"
LEVEL = "other"
RULE = "rank(not ordered < scheduled < ordered < acknowledged) never falls; a mint, burn or fulfilment task is handed out exactly on the step to 'ordered', for the element's own info; an acknowledgement goes only to the request whose info the event names; an element keeps its info and its place; nothing else orders"
ASSUME = ["events reach the state one at a time (P15)", "two recorded operations with equal info are the same operation (info carries the txid)"]

RANK = {"none": 0, "scheduled": 1, "created": 2}
ORDER = {"mint": "CreateMint", "burn": "CreateBurn", "fulfillment": "CreateFulfillment"}
ACK = {"MintBroadcasted": ("deposits", "mint"), "BurnBroadcasted": ("withdrawals", "burn"), "FulfillBroadcasted": ("withdrawals", "fulfillment")}


def rank(c):
    return RANK.get(c, 3) if isinstance(c, str) else 3


def evname(ev):
    return ev or "restart"


def summaries(M):
    for sv in STATES:
        for ev in M.events() + [None]:
            s = M.step(sv, ev) if ev is not None else M.boot(sv)
            if s.cur is not FALSE:
                yield sv, ev, s


def tasks_of(M, t):
    """the tasks of a row as [(name, arguments)]"""
    out = []
    if t.op == "flat" or (t.op == "cat" and any(p.op != "one" for p in t.a)):
        raise Shape(f"tasks of an element are {show(t)[:160]}")
    for p in t.a:
        x = p.a[0]
        out.append((M.task_name(x), x.a[2:]))
    return out


def forward(c):
    """a request only moves forward, and tasks are handed out when it is ordered"""
    M = Machine(c)
    for ev in M.events() + [None]:
        s = M.step(INIT, ev) if ev is not None else M.boot(INIT)
        if s.cur is FALSE:
            continue
        n = evname(ev)
        bad = {}
        for r in M.table(ev):
            names = M.reqnames(r.list)
            if M.newinfo(r) is not M.info(r.list):
                bad["info"] = f"an element of {r.list} becomes {show(r.new)[:200]}: not its own info any more"
            want = []
            for q, c0, (c1, x) in zip(names, r.cls, M.after(r)):
                if rank(c1) < rank(c0):
                    bad["back:" + q] = f"a {q} goes back from {c0} to {c1}"
                if rank(c0) < 2 and rank(c1) == 2:
                    want.append((ORDER[q], (M.info(r.list),)))
                if rank(c0) < 3 and rank(c1) == 3 and ACK.get(ev) != (r.list, q):
                    bad["ack:" + q] = f"a {q} that was never broadcast ({c0}) becomes {c1}"
            got = [t for t in tasks_of(M, r.tasks) if t[0] in ORDER.values()]
            if sorted(map(str, got)) != sorted(map(str, want)):
                bad["order:" + r.list] = f"with requests {r.cls} going to {[x for x, _ in M.after(r)]} the tasks handed out are {got}, not {want}"
        for k, m in bad.items():
            c.fact(False, f"step:{n}:{k}", s.where(), f"{n}: {m}")
        if not bad:
            c.fact(True, f"step:{n}", s.where(), f"{n}: requests only move forward and are ordered once, for their own operation")


def acknowledged(c):
    """a broadcast is noted at the request it belongs to, and only there"""
    M = Machine(c)
    for ev, (L, q) in ACK.items():
        s = M.step(INIT, ev)
        e = M.event(ev)
        ei, et = (e.a[2], e.a[3])
        bad = {}
        hit = 0
        for r in M.table(ev):
            if r.new is r.old:
                continue
            if r.list != L:
                bad["other-list"] = f"changes an element of {r.list}"
                continue
            after = dict(zip(M.reqnames(L), M.after(r)))
            before = dict(zip(M.reqnames(L), r.cls))
            for o in after:
                if o != q and (after[o][0] != before[o]):
                    bad["other"] = f"changes a {o} from {before[o]} to {after[o][0]}"
            if And(r.g, Not(eq(M.info(L), ei))) is not FALSE:
                bad["which"] = f"changes an element whose info is not the one broadcast, when {show(r.g)[:160]}"
            if after[q][0] != ("Broadcasted", False) or after[q][1] is not et:
                bad["what"] = f"the {q} becomes {after[q]}, not a broadcast, unpolled request with the event's transaction id"
            hit += 1
        for k, m in bad.items():
            c.fact(False, f"ack:{ev}:{k}", s.where(), f"{ev}: {m}")
        if not bad:
            c.fact(hit > 0, f"ack:{ev}", s.where(), f"{ev}: the request with the event's info takes the event's transaction id ({hit} cases)")
        # and it is noted: an ordered request with that info, alone or among others, ends acknowledged
        other = [(n, M.req("created", "o" + n)) for n in M.reqnames(L)]
        mine = [(n, M.req("created", "m" + n)) for n in M.reqnames(L)]
        oi = mk("sym", "other_info", tyof(ei))
        for nm, els, at in (("alone", [M.make(L, ei, *mine)], 0), ("after another", [M.make(L, oi, *other), M.make(L, ei, *mine)], 1)):
            X = M.run_lists(ev, *((els, []) if L == "deposits" else ([], els)))
            g = And(TRUE, Not(eq(oi, ei)))
            Y = M.sfield(simp(g, X.cell(0)), INIT, L)
            y = norm(simp(g, nth(Y, I(at))))
            r = Row(L, None, g, els[at], y, EMPTY)
            ok = implies_(g, X.cur) and dict(zip(M.reqnames(L), M.after(r)))[q] == (("Broadcasted", False), et)
            c.fact(ok, f"ack:{ev}:noted:{nm}", X.where(), f"{ev} for an ordered {q} ({nm}) does not end with that {q} broadcast: {show(y)[:200]} when {show(X.cur)[:120]}")


def implies_(g, h):
    return And(g, Not(h)) is FALSE


def elsewhere(c):
    """no other state or step orders anything, forgets anything, or starts with anything ordered"""
    M = Machine(c)
    n = 0
    for sv, ev, s in summaries(M):
        w = f"{sv}:{evname(ev)}"
        post = simp(s.cur, s.cell(0))
        for lits, x in paths(post):
            if x is BOT:
                continue
            if x.op != "adt" or x.a[0] != ST:
                raise Shape(f"state becomes {show(x)[:120]}")
            v = M.vn(ST, x.a[1])
            if sv == INIT:
                c.fact(v == INIT, f"keep:{w}", s.where(), f"{w}: an initialised state becomes {v}, which forgets the requests")
            elif v == INIT:
                ok = M.sfield(x, INIT, "deposits") is EMPTY and M.sfield(x, INIT, "withdrawals") is EMPTY
                c.fact(ok, f"start:{w}", s.where(), f"{w}: the lists do not start empty: {show(x)[:200]}")
        for g, name, t in (M.each(s)[0] if sv == INIT else singles(M, s)):
            n += 1
            c.fact(name not in ORDER.values(), f"single:{w}:{name}", s.where(), f"{w} hands out {name} outside any recorded request, when {show(g)[:120]}")
    c.fact(n >= 4, "single:seen", "-", f"only {n} single tasks were seen in all steps: the summaries do not cover the state machine")


def singles(M, s):
    out = []
    for it in M.tasks(simp(s.cur, s.ret), s.cur):
        if it[1] != "one":
            raise Shape("tasks per element in a state without requests")
        for lits, x in cases(it[2]):
            g = it[0]
            for v, l in lits:
                g = And(g, litg(v, l))
            if g is not FALSE:
                out.append((g, M.task_name(x), x))
    return out


PARTS = [forward, acknowledged, elsewhere]
