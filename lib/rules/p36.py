"""State machine table as in P17, read for progress: which classes of request a block must move."""
from fw import *
from romeo import *
import p17

SCOPE = "romeo"
LEVEL = "other"
RULE = "every Bitcoin block schedules each mint and burn that is not scheduled, for a height the Stacks chain will reach, and orders each scheduled one whose height is reached; every Stacks block orders the fulfilment of each confirmed burn that has none; heights and delay add up without a further condition"
ASSUME = ["blocks keep coming (P19)", "tasks are run"]


def moved(c):
    M = Machine(c)
    H = M.sfield(M.state(INIT), INIT, "stacks_block_height")
    s = M.step(INIT, "BitcoinBlock")
    bad, seen = {}, set()
    for r in M.table("BitcoinBlock"):
        q, c0 = M.reqnames(r.list)[0], r.cls[0]
        c1, x = M.after(r)[0]
        due = M.req("scheduled", q).a[2].a[2]
        if c0 == "none":
            seen.add(q + c0)
            if c1 == "scheduled":
                d = sub(x, H)
                if not (d.op == "int" and 0 <= d.a[0] <= 100):
                    bad["when:" + q] = f"a new {q} is scheduled for {show(x)[:100]}"
            elif c1 != "created":
                bad["schedule:" + q] = f"a {q} that is not scheduled stays {c1}"
        if c0 == "scheduled":
            seen.add(q + c0)
            ready = And(r.g, le(due, H))
            if ready is not FALSE and c1 != "created":
                bad["due:" + q] = f"a {q} whose height is reached stays {c1} when {show(ready)[:160]}"
            if c1 == "scheduled" and x is not due:
                bad["again:" + q] = f"a scheduled {q} is put off to {show(x)[:100]}"
    c.fact(len(seen) == 4, "covered", s.where(), f"the summary of a Bitcoin block covers {sorted(seen)} only")
    for k, m in bad.items():
        c.fact(False, f"block:{k}", s.where(), f"BitcoinBlock: {m}")
    if not bad:
        c.fact(True, "block", s.where(), "a Bitcoin block schedules and orders every mint and burn it can")


def not_early(c):
    """a scheduled request waits for its height"""
    M = Machine(c)
    for ev in M.events() + [None]:
        s = M.step(INIT, ev) if ev is not None else M.boot(INIT)
        if s.cur is FALSE:
            continue
        H = M.sfield(M.state(INIT), INIT, "stacks_block_height")
        bad = None
        for r in M.table(ev):
            q, c0 = M.reqnames(r.list)[0], r.cls[0]
            c1, x = M.after(r)[0]
            if c0 == "scheduled" and c1 == "created":
                due = M.req("scheduled", q).a[2].a[2]
                if And(r.g, Not(le(due, H))) is not FALSE:
                    bad = f"a {q} is ordered before its height when {show(r.g)[:160]}"
            if c0 == "none" and c1 == "created":
                bad = f"a {q} is ordered without its delay"
        c.fact(bad is None, f"wait:{p17.evname(ev)}", s.where(), f"{p17.evname(ev)}: {bad}" if bad else "a scheduled request waits for its height")


def fulfilled(c):
    M = Machine(c)
    s = M.step(INIT, "StacksBlock")
    bad, n = None, 0
    for r in M.table("StacksBlock"):
        if r.list != "withdrawals":
            continue
        b0, f0 = r.cls
        if isinstance(b0, tuple) and b0[0] == "Confirmed" and f0 == "none":
            n += 1
            f1 = M.after(r)[1][0]
            if f1 != "created":
                bad = f"the fulfilment of a confirmed burn stays {f1}"
    c.fact(bad is None and n > 0, "fulfil", s.where(), f"StacksBlock: {bad or 'the fulfilment of every confirmed burn is ordered'} ({n} rows)")


PARTS = [moved, not_early, fulfilled]
