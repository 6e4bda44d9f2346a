"""Same state machine table as P17: in every row in which a fulfilment is ordered, the class of the same
element's burn is 'confirmed' before or after the event."""
from fw import *
from romeo import *
import p17

SCOPE = "romeo"
LEVEL = "other"
RULE = "a fulfilment leaves 'not ordered' only in elements whose own burn is acknowledged as confirmed, and a fulfilment task is handed out only for such an element; 'confirmed' is written only from an event that says so for that burn's transaction id"
ASSUME = ["the Stacks node's word on a transaction's status is right"]


def after_burn(c):
    M = Machine(c)
    for ev in M.events() + [None]:
        s = M.step(INIT, ev) if ev is not None else M.boot(INIT)
        if s.cur is FALSE:
            continue
        n = p17.evname(ev)
        if ev == "FulfillBroadcasted":
            # the broadcast of a fulfilment ordered before; P17 has it that only then is there one
            continue
        bad, seen = {}, 0
        for r in M.table(ev):
            if r.list != "withdrawals":
                if any(t[0] == "CreateFulfillment" for t in p17.tasks_of(M, r.tasks)):
                    bad["deposit"] = "a deposit makes a fulfilment"
                continue
            (b0, f0), ((b1, _), (f1, _)) = r.cls, M.after(r)
            moved = f0 == "none" and f1 != "none"
            task = [t for t in p17.tasks_of(M, r.tasks) if t[0] == "CreateFulfillment"]
            seen += bool(task)
            if (moved or task) and not (conf(b0) or conf(b1)):
                bad["early"] = f"a fulfilment is ordered while the withdrawal's burn is {b0}"
        for k, m in bad.items():
            c.fact(False, f"burn-first:{n}:{k}", s.where(), f"{n}: {m}")
        if not bad:
            c.fact(True, f"burn-first:{n}", s.where(), f"{n}: no fulfilment before its burn is confirmed ({seen} rows order one)")


def conf(c):
    return isinstance(c, tuple) and c[0] == "Confirmed"


def word(c):
    """a burn becomes confirmed only on word of its own transaction"""
    M = Machine(c)
    for ev in M.events() + [None]:
        s = M.step(INIT, ev) if ev is not None else M.boot(INIT)
        if s.cur is FALSE:
            continue
        n = p17.evname(ev)
        bad = None
        for r in M.table(ev):
            if r.list != "withdrawals":
                continue
            b0, (b1, tx) = r.cls[0], M.after(r)[0]
            if isinstance(b0, tuple) and isinstance(b1, tuple) and b1[0] == b0[0]:
                continue
            if not isinstance(b1, tuple) or b1[0] in ("Broadcasted", "Rejected"):
                continue
            e = M.event(ev) if ev else None
            if ev != "StacksTransactionUpdate" or b1[0] is not e.a[3] or tx is not M.txid("burn") or And(r.g, Not(eq(e.a[2], tx))) is not FALSE:
                bad = f"a burn that is {b0} becomes {b1} when {show(r.g)[:160]}"
        c.fact(bad is None, f"confirmed:{n}", s.where(), f"{n}: {bad}" if bad else f"{n}: a burn is confirmed only by a status update for its transaction")


PARTS = [after_burn, word]
