"""The event loop is summarised with the state machine opaque. Between receiving an event and handing it to the
state machine, the bytes written to the log are read off the summary's ordered list of effects and compared with
`serialisation of this very event` + newline; every write, and the flush after the last of them, must be awaited
and have succeeded on every path that reaches the state machine or spawns a task."""
from fw import *
from rio import *

SCOPE = "romeo"
LEVEL = "other"
RULE = "in the receive loop: log bytes = encode(event) ++ newline, then flush, all awaited and successful, then the one state update with the same event; tasks are spawned after it"
ASSUME = ["a flushed tokio file write survives the end of the process", "serde_json's encoding of a value contains no newline"]
ENC = ("ser::to_vec", "ser::to_string")


def writes(L, recs):
    return [r for r in recs if "AsyncWriteExt::" in r.name or r.name.startswith("std::io::Write::") or "ser::to_writer" in r.name]


def recorded(c):
    L = Life(c)
    here = [r for r in L.inloop()]
    c.fact(len(L.live) == 1 and L.live[0].loops == L.recv.loops, "one-step", L.at(L.recv), f"each received event is handed to the state machine once ({len(L.live)} places)")
    if len(L.live) != 1:
        return
    u = L.live[0]
    c.fact(u.args[1] is L.event, "same-event", L.at(u), f"the event applied is the event received: {show(u.args[1])[:160]}")
    ws = writes(L, here)
    before = [r for r in ws if r.idx < u.idx]
    c.fact(not [r for r in ws if r.idx > u.idx], "late-write", L.at(u), "nothing is written to the log after the state changed")
    data, flushed, handle = [], None, None
    for r in before:
        m = r.name.split("::")[-1]
        h, chain = root(r.args[0])
        handle = handle or h
        c.fact(h is handle, f"handle:{r.idx - u.idx}", L.at(r), f"writes go to one log: {show(h)[:100]}")
        c.fact(r.loops == L.recv.loops, "write-loop", L.at(r), f"{m} happens once per event")
        aw = mk("await", r.res)
        done = [x for x in here if x.name == "await" and x.args[0] is r.res and r.idx < x.idx < u.idx]
        c.fact(bool(done), f"awaited:{m}", L.at(r), f"{m} is awaited before the state changes")
        c.fact(And(u.guard, Not(success(aw))) is FALSE, f"checked:{m}", L.at(r), f"a failing {m} keeps the event from the state machine")
        if m == "write_all":
            data.append(r.args[1])
            flushed = None
        elif m == "flush":
            flushed = r
        else:
            c.fact(False, f"write:{m}", L.at(r), f"the log is written with {m}, which may write only a part")
    c.fact(flushed is not None, "flush", L.at(u), "the log is flushed after the last write and before the state changes")
    got = as_bytes(cat([mk("spr", d) for d in data]))
    want = [as_bytes(cat([mk("spr", x), one(I(10))])) for x in encodings(L, here)]
    c.fact(got in want, "line", L.at(u), f"the bytes logged for an event are {show(got)[:200]}, its encoding and a newline expected")
    for r in here:
        if r.name.endswith("task::spawn::spawn") or r.name.endswith("::spawn_blocking"):
            c.fact(r.idx > u.idx and And(r.guard, Not(u.guard)) is FALSE, "task-after", L.at(r), "tasks start after the event is on record")


def as_bytes(t):
    """text and its bytes are written alike"""
    f = lambda x: x.a[0] if x.op == "asbytes" else None
    return norm(rewrite(t, f))


def rewrite(t, f):
    if t.op == "cat":
        return cat([rewrite(x, f) for x in t.a])
    if t.op == "spr":
        return mk("spr", rewrite(t.a[0], f))
    r = f(t)
    return rewrite(r, f) if r is not None else t


def encodings(L, recs):
    out = []
    for r in recs:
        if any(r.name.endswith(n) for n in ENC) and r.args and r.args[-1] is L.event:
            out.append(engine.ENG.proj(engine.ENG.proj(r.res, ("v", 0)), ("f", 0)))
    return out


PARTS = [recorded]
