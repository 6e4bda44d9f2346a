"""Same summary of the event loop as P15 and P16. The bytes of the log that survive a crash are the lines written
before it and possibly the beginning of one more. The loop that replays the log is a `while` term; a record is
decoded only on paths on which it was read up to and with its newline, the sum of the lengths of these records is a
component of the same term, and the log is cut to that length before anything is written to it."""
from fw import *
from rio import *
import p15
import p16

SCOPE = "romeo"
LEVEL = "other"
RULE = "a record is decoded and applied only if it ends in a newline; replay ends at the first that does not; the log is cut to exactly the applied records, whatever they are, before the state goes live and before the first write"
ASSUME = ["bytes of a record reach the disk in the order they were written", "read_until appends to its buffer the bytes up to and with the delimiter, or up to the end of the file"]


def torn(c):
    L = Life(c)
    if len(L.replays) != 1:
        raise Missing("one place that replays events")
    r = L.replays[0]
    dec = payload(r.args[1])
    t = dec.a[2][0] if dec is not None and dec.op == "call" else None
    buf = p16.filled(t) if t is not None else None
    c.fact(buf is not None, "delimiter", L.at(r), f"the text decoded may be the beginning of a record whose writing a crash interrupted: {show(t if t is not None else r.args[1])[:200]}")
    if buf is None:
        return
    rd = buf.a[0]
    read = [x for x in L.calls if x.name.split("::")[-1] in p16.READS]
    c.fact(all(x.res is rd for x in read), "one-read", L.at(r), "records are read in one place")
    if is_call(rd, "read_until"):
        c.fact(rd.a[2][1] is I(10), "newline", L.at(r), f"records end in {show(rd.a[2][1])}, a newline expected")
    start = rd.a[2][-1]
    c.fact(ln(start) is ZERO, "fresh", L.at(r), f"a record is read after what was left in its buffer: {show(start)[:200]}")
    c.fact(And(r.guard, Not(p16.whole(buf))) is FALSE, "whole", L.at(r), "an event is decoded from a record without its newline")
    i = L.loopvar(r.args[0])
    cuts = [x for x in L.calls if x.name.endswith("File::set_len")]
    c.fact(len(cuts) == 1, "cut", L.at(r), f"what is left of an interrupted record is cut off the log in one place ({len(cuts)} found): the next event would be written behind it")
    if len(cuts) != 1 or i is None:
        return
    k = cuts[0]
    c.fact(not k.loops and k.idx > r.idx, "cut-once", L.at(k), "the log is cut once, after it was replayed")
    n = k.args[1]
    n = uncast(n)
    j = L.loopvar(n)
    ok = j is not None and j[0] is ZERO and j[2] is i[2]
    c.fact(ok, "length", L.at(k), f"the log is cut to a length that the replay counted: {show(n)[:300]}")
    if ok:
        v = L.loopsym(n)
        grew = [norm(mk("lin", 0, ((v, 1), (x, 1)))) for x in (ln(buf), p16.payload_of(mk("await", rd)))]
        c.fact(any(uncast(j[1]) is x for x in grew), "counted", L.at(k), f"the length grows by that of each applied record: {show(j[1])[:300]}")
    src = L.origin(k.args[0])
    c.fact(src is L.origin(rd.a[2][0]), "same-file", L.at(k), f"the file cut is the log: {show(src)[:160]}")
    boots = [x for x in L.calls if x.name.endswith("State::bootstrap")]
    done = success(mk("await", k.res))
    for x in boots + p15.writes(L, L.calls):
        c.fact(x.idx > k.idx and And(x.guard, Not(done)) is FALSE, f"before:{x.name.split('::')[-1]}", L.at(x), "the log is cut before the state goes live and before it is written to")


def uncast(t):
    """lengths fit in either type"""
    return norm(rewrite(t))


def rewrite(t):
    if t.op == "cast":
        return rewrite(t.a[1])
    if t.op == "lin":
        return mk("lin", t.a[0], tuple((rewrite(x), k) for x, k in t.a[1]))
    return t


PARTS = [torn]
