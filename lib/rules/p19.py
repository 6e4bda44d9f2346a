"""`update` and `bootstrap` are summarised for every state and event variant; the heights of the new state
and every block-fetching task are read off as terms over the old heights and the event, in every case."""
from fw import *
from romeo import *
import p17

SCOPE = "romeo"
LEVEL = "other"
RULE = "heights change only with a block of that chain, to that block's height, and each block then asks for height + 1 exactly once; scanning of a chain starts at the contract's height + 1 exactly once; a restart asks for height + 1 of each chain being scanned"
ASSUME = ["fetching a block of height h returns the event of height h (P25)", "tasks handed out are run (tokio)"]

SCAN = {"FetchStacksBlock": "stacks_block_height", "FetchBitcoinBlock": "bitcoin_block_height"}
ON = {"FetchStacksBlock": ("ContractPublicKeySetup", "Initialized"), "FetchBitcoinBlock": ("Initialized",)}
BLOCK = {"FetchStacksBlock": "StacksBlock", "FetchBitcoinBlock": "BitcoinBlock"}
LEVELS = {UNINIT: 0, DETECTED: 1, KEYSETUP: 2, INIT: 3}


def continuity(c):
    M = Machine(c)
    seen = 0
    for sv, ev, s in p17.summaries(M):
        n = p17.evname(ev)
        w = f"{sv}:{n}"
        e = M.event(ev) if ev else None
        ones = M.each(s)[0] if sv == INIT else p17.singles(M, s)
        post = simp(s.cur, s.cell(0))
        for lits, x in paths(post):
            if x is BOT:
                continue
            if x.op != "adt" or x.a[0] != ST:
                raise Shape(f"state becomes {show(x)[:120]}")
            g = s.cur
            for v, l in lits:
                g = And(g, litg(v, l))
            if g is FALSE:
                continue
            seen += 1
            sv2 = M.vn(ST, x.a[1])
            c.fact(LEVELS[sv2] >= LEVELS[sv], f"{w}:forward", s.where(), f"{w}: the state goes back to {sv2}")
            for task, fld in SCAN.items():
                if sv2 == UNINIT:
                    continue
                h = M.sfield(x, sv2, fld)
                # where the height comes from
                if ev == BLOCK[task] and sv in ON[task]:
                    want = e.a[2]
                elif sv == UNINIT and ev == "ContractBlockHeight":
                    want = e.a[2 + (0 if fld.startswith("stacks") else 1)]
                elif sv == UNINIT:
                    want = None
                else:
                    want = M.sfield(M.state(sv), sv, fld)
                c.fact(want is not None and c_eq(g, h, want), f"{w}:{fld}", s.where(), f"{w}: {fld} becomes {show(h)[:120]}, not {show(want) if want else 'unset'}")
                # what is asked for
                start = sv2 in ON[task] and sv not in ON[task]
                due = start or (sv in ON[task] and (ev == BLOCK[task] or ev is None))
                got = [(And(g, gg), t) for gg, name, t in ones if name == task and And(g, gg) is not FALSE]
                if due:
                    disjoint = all(And(a[0], b[0]) is FALSE for i, a in enumerate(got) for b in got[:i])
                    never = g
                    for gg, _ in got:
                        never = And(never, Not(gg))
                    ok = disjoint and never is FALSE and all(c_eq(gg, t.a[2], add(h, ONE)) for gg, t in got)
                    c.fact(ok, f"{w}:{task}", s.where(), f"{w}: the block after {show(h)[:80]} is to be asked for exactly once; the tasks are {[show(t)[:80] for _, t in got]}")
                else:
                    c.fact(not got, f"{w}:{task}", s.where(), f"{w}: asks for {[show(t)[:80] for _, t in got]}, though that block has been asked for already")
    c.fact(seen >= 12, "covered", "-", f"only {seen} combinations of state and event are possible: the summaries do not cover the state machine")


def c_eq(g, a, b):
    return simp(g, a) is simp(g, b) or And(g, Not(eq(a, b))) is FALSE


PARTS = [continuity]
