"""Same summary of the event loop as P15: the log replayed at the start is the file events are appended to; every
line of it is decoded and applied, in order, once, without conditions, to a new state under the same configuration;
the state the relayer goes on with is that state and is changed by nothing but the state machine. What the state
machine does may depend on nothing but its arguments: every external call it can reach, from every state and event,
is checked against the sources of anything else (clock, randomness, environment, files, network, shared or
thread-local cells, hash order). The encoder of every type in an event must write every field of every variant."""
from fw import *
from rio import *

SCOPE = "romeo"
LEVEL = "other"
RULE = "replayed file = appended file (append mode, never truncated); replay loop: one unconditional update per line with the decoded line; live state = replayed state after bootstrap, changed by updates only; no task is started by replay; no source of nondeterminism is reachable from the state machine; event encoders are complete"
ASSUME = ["serde_json decodes what it encoded for the derived implementations", "tokio's line reader yields each line of the file in order"]

IMPURE = ("std::time", "tokio::", "std::env", "std::fs", "std::net", "std::process", "std::thread", "std::io::stdio", "rand", "getrandom", "reqwest", "chrono",
          "std::sync", "core::sync", "core::cell", "std::cell", "once_cell", "hash::random", "RandomState", "hash::map::HashMap", "hash::set::HashSet", "hash_map", "hash_set",
          "std::collections::hash", "core::time", "electrum", "bitcoincore_rpc", "backoff", "Wallet::", "std::ptr", "core::ptr", "alloc::sync")


def replay(c):
    new = c.run(one(c, "State::new")).ret
    L = Life(c)
    c.fact(len(L.replays) == 1, "one-replay", L.at(L.recv), f"events are replayed in one place ({len(L.replays)} found)")
    if len(L.replays) != 1 or len(L.live) != 1:
        return
    r, u = L.replays[0], L.live[0]
    e = L.s.e
    c.fact(len(r.loops) == 1, "replay-loop", L.at(r), "replay is one loop over the log")
    # the lines
    ev = r.args[1]
    dec = payload(ev)
    ok = dec is not None and dec.op == "call" and dec.a[0].split("::")[-1] in ("from_str", "from_slice")
    c.fact(ok, "decoded", L.at(r), f"the event replayed is a decoded line: {show(ev)[:200]}")
    if not ok:
        return
    got = record(dec.a[2][0])
    c.fact(got is not None, "line", L.at(r), f"the text decoded is the next line of the log: {show(dec.a[2][0])[:200]}")
    if got is None:
        return
    nx, least, most, end = got
    rd = nx.a[2][0]
    n = [x for x in L.calls if x.name.split("::")[-1] in READS]
    c.fact(len(n) == 1 and n[0].loops == r.loops, "each-line", L.at(r), "lines are taken from the log once per replayed event, and nowhere else")
    want = And(least, success(dec))
    g = r.guard
    if len(n) == 1:
        c.fact(And(And(n[0].guard, want), Not(g)) is FALSE, "every-line", L.at(r), "every line of the log is applied, without further conditions")
    # state
    i = L.loopvar(r.args[0])
    c.fact(i is not None, "replay-state", L.at(r), "replay goes on with the state it made")
    if i is None:
        return
    c.fact(i[0] is new, "replay-new", L.at(r), f"replay starts from a new state: {show(i[0])[:120]}")
    back = i[1]
    c.fact(back.op == "mut" and back.a[0] is r.res and back.a[1] == 0, "replay-only", L.at(r), f"one replay step is one update: {show(back)[:160]}")
    c.fact(And(i[2], Not(And(most, success(dec)))) is FALSE and And(want, Not(i[2])) is FALSE, "replay-stops", L.at(r), "replay goes on while there are lines, and stops the relayer at one it cannot decode")
    for g in i[3].exits:
        c.fact(And(g, Not(end)) is FALSE, "replay-ends", L.at(r), "replay ends before the log does")
    c.fact(r.args[2] is L.cfg and u.args[2] is L.cfg, "config", L.at(r), "replayed and received events are applied under the same configuration")
    boots = [x for x in L.calls if x.name.endswith("State::bootstrap")]
    c.fact(len(boots) == 1 and not boots[0].loops, "one-bootstrap", L.at(r), f"the state is bootstrapped once ({len(boots)})")
    if len(boots) == 1:
        b = boots[0]
        w = b.args[0]
        c.fact(w.op == "while" and L.loopvar(w) == i, "boot-state", L.at(b), f"the state bootstrapped is the replayed one: {show(w)[:100]}")
        j = L.loopvar(u.args[0])
        c.fact(j is not None and j[0] is mk("mut", b.res, 0, 0), "live-state", L.at(u), "the first received event is applied to the bootstrapped state")
        if j is not None:
            c.fact(j[1].op == "mut" and j[1].a[0] is u.res and j[1].a[1] == 0, "live-only", L.at(u), f"nothing but the state machine changes the state: {show(j[1])[:160]}")
        c.fact(r.idx < b.idx < u.idx, "order", L.at(b), "replay, then bootstrap, then events")
        for x in L.calls:
            if "task::spawn" in x.name:
                c.fact(x.idx > b.idx, f"no-task:{'live' if L.loop in x.loops else 'boot'}", L.at(x), "no task starts before the replay is over")
    # the file
    import p15
    src = L.origin(rd)
    c.fact(is_call(src, "OpenOptions::open"), "opened", L.at(n[0]), f"the log is opened with explicit options: {show(src)[:160]}")
    ws = p15.writes(L, L.calls)
    for x in ws:
        o = L.origin(x.args[0])
        c.fact(o is src, "same-file", L.at(x), f"events are appended to the file that is replayed: {show(o)[:200]}")
        c.fact(x.idx > r.idx, "replay-first", L.at(x), "the log is replayed before it is written")
    if is_call(src, "OpenOptions::open"):
        opts, chain = root(src.a[2][0])
        fl = {}
        for k in reversed(chain):
            fl[k.a[0].split("::")[-1]] = k.a[2][1] if len(k.a[2]) > 1 else TRUE
        for k, v in (("append", TRUE), ("create", TRUE), ("read", TRUE), ("truncate", None), ("create_new", None)):
            g = fl.get(k)
            c.fact(g is v or (v is None and g is FALSE), f"open:{k}", L.at(n[0]), f"the log is opened with {k} = {show(g) if g is not None else 'false'}")
        c.fact(all(x.a[0].split("::")[-1] in ("append", "create", "read", "write", "truncate", "create_new", "mode") for x in chain), "open:other", L.at(n[0]), "no other open option is used")
        p = src.a[2][1]
        c.fact(not impure(p), "path", L.at(n[0]), f"the log is in the same place at every start: {show(p)[:120]}")
        for x in L.calls:
            m = x.name.split("::")[-1]
            if m in ("remove_file", "rename", "remove_dir_all", "write", "copy", "truncate") and ("fs::" in x.name) and "OpenOptions" not in x.name:
                c.fact(False, f"fs:{m}", L.at(x), f"the event loop calls {x.name}")


READS = ("next_line", "read_until", "read_line", "next_segment")


def record(t):
    """what a decoded text was read by: the call, when it gave a line (at least, at most), when there are no more"""
    opt = payload(t, 1)
    res = payload(opt) if opt is not None else None
    if res is not None and res.op == "await" and is_call(res.a[0], "Lines::next_line"):
        got = And(success(res), is_label(engine.ENG.discr(opt), 1))
        return res.a[0], got, got, And(success(res), is_label(engine.ENG.discr(opt), 0))
    buf = filled(t)
    if buf is not None:
        aw = mk("await", buf.a[0])
        most = And(success(aw), whole(buf))
        return buf.a[0], And(Not(is_label(payload_of(aw), 0)), most), most, And(success(aw), Or(is_label(payload_of(aw), 0), Not(whole(buf))))
    return None


def filled(t):
    """the buffer a line was read into"""
    if t.op == "slice" and t.a[1] is ZERO and t.a[2] is sub1(ln(t.a[0])):  # without its newline
        t = t.a[0]
    if t.op == "mut" and is_call(t.a[0], "AsyncBufReadExt::read_until", "AsyncBufReadExt::read_line"):
        return t
    return None


def payload_of(aw):
    return engine.ENG.proj(engine.ENG.proj(aw, ("v", 0)), ("f", 0))


def whole(buf):
    """it ends in a newline"""
    return And(Not(is_label(ln(buf), 0)), is_label(nth(buf, sub1(ln(buf))), 10))


def sub1(n):
    return norm(mk("lin", -1, ((n, 1),)))


def one(c, suffix):
    ids = [i for i, b in c.prog.bodies.items() if b["name"] == f"{ST}::{suffix.split('::')[-1]}"]
    if len(ids) != 1:
        raise Missing(suffix)
    return ids[0]


def impure(t):
    for x in subterms(t):
        if x.op == "call" and banned(x.a[0]):
            return x.a[0]
    return None


def banned(n):
    return any(n.startswith(p) or (not p[0].islower() and p in n) or f"::{p}" in n for p in IMPURE)


def pure(c):
    M = Machine(c)
    seen, n = {}, 0
    for sv in STATES:
        for ev in M.events() + [None]:
            s = M.step(sv, ev) if ev is not None else M.boot(sv)
            n += 1
            for r in s.log:
                if r.kind == "call" and not r.name.startswith("tracing"):
                    seen.setdefault(r.name, r)
            for x in (s.ret, s.cell(0)):
                for y in subterms(x) if x is not BOT else ():
                    if y.op in ("static", "tls"):
                        seen.setdefault("static " + show(y), None)
    for k, r in sorted(seen.items()):
        c.fact(not k.startswith("static ") and not banned(k), f"pure:{k}", f"{r.site} {r.fn}" if r else "-", f"the state machine calls {k}, whose result is not fixed by state, event and configuration")
    c.notes.append(f"{n} summaries, external calls reachable from the state machine: {', '.join(sorted(seen))}")


def encoders(c):
    prog = c.prog
    todo, seen = [("adt", EV, ())], set()
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        for x in inner_types(t):
            todo.append(x)
        if t[0] != "adt" or t[1] not in prog.adts or not t[1].startswith("romeo::"):
            continue
        f = prog.find_impl("serde_core::ser::Serialize", t, (t,)) or prog.find_impl("serde::ser::Serialize", t, (t,))
        if f is None:
            raise Missing(f"encoder of {t[1]}")
        complete(c, t, f[0]["items"]["serialize"])
        for i, v in enumerate(prog.adts[t[1]]["v"]):
            for j in range(len(v["f"])):
                todo.append(prog.field_type(t, i, j))


def inner_types(t):
    return [x for x in t[2] if isinstance(x, tuple)] if t[0] == "adt" and len(t) > 2 and isinstance(t[2], tuple) else []


def complete(c, t, bid):
    prog = c.prog
    for i, v in enumerate(prog.adts[t[1]]["v"]):
        xs = [mk("sym", f"f{j}", prog.field_type(t, i, j)) for j in range(len(v["f"]))]
        s = c.run(bid, [adt(t[1], i, *xs), None])
        got = []
        for r in s.log:
            if r.kind == "call" and r.name.split("::")[-1] in ("serialize_field", "serialize_newtype_variant", "serialize_element", "serialize_newtype_struct", "serialize_entry"):
                got += [a for a in r.args if isinstance(a, T) and a in xs]
        miss = [v["f"][j]["n"] for j, x in enumerate(xs) if x not in got]
        c.fact(not miss, f"encoded:{t[1].split('::')[-1]}::{v['n']}", s.where(), f"the log leaves out {', '.join(miss)} of {t[1].split('::')[-1]}::{v['n']}" if miss else f"{v['n']}: all {len(xs)} fields are written")
        names = [r for r in s.log if r.kind == "call" and r.name.split("::")[-1].startswith("serialize_") and r.name.split("::")[-1].endswith("variant")]
        if len(prog.adts[t[1]]["v"]) > 1:
            ix = {show(a) for r in names for a in r.args if isinstance(a, T) and a.op == "str"}
            c.fact(bool(names), f"variant:{t[1].split('::')[-1]}::{v['n']}", s.where(), f"the variant is written ({', '.join(sorted(ix))})")


PARTS = [replay, pure, encoders]
