"""Abstract interpretation of the command line tool from `main`: the outcome of every fallible call is
followed to the exit status and to the standard output."""
from fw import *
import num
import p01
import p26
import p31

LEVEL = "other"
RULE = "for each sub-command: success and output both imply that every fallible call reached has succeeded; success implies the output was written; no reachable panic in deposit, withdraw and broadcast"
ASSUME = ["a process whose main function returns an error exits with a non-zero status"]


def fallible(s, here):
    for r in s.log:
        if r.kind == "enter" or not isinstance(r.res, T) or r.loops:
            continue
        t = tyof(r.res)
        if t is not None and t[0] == "adt" and t[1] == "core::result::Result" and And(r.guard, here) is not FALSE:
            yield r


def done(c, s):
    t = c.prog.ltypes(c.prog.bodies[s.bid])[0]
    return s.ok if t is not None and t[0] == "adt" and t[1] == "core::result::Result" else s.cur


def outcome(c, s, nm, here, outs):
    fin = And(done(c, s), here)
    c.fact(fin is not FALSE, f"{nm}:can-succeed", s.where(), "this sub-command never succeeds")
    n = {}
    for r in fallible(s, here):
        ok = p31.success(r)
        short = "::".join(r.name.split("::")[-2:])
        n[short] = n.get(short, 0) + 1
        key = f"{nm}:{short}:{n[short]}"
        c.implies(And(fin, r.guard), ok, f"{key}:reported", r.site, f"success is reported although {short} failed")
        for og, _, v, o in outs:
            if o is not r:
                c.implies(Ands([og, here, r.guard]), ok, f"{key}:before-output", r.site, f"something is printed although {short} failed or is still to come")
    c.fact(len(outs) >= 1, f"{nm}:output", s.where(), "this sub-command prints nothing")
    if outs:
        w = FALSE
        for og, done_, v, o in outs:
            w = Or(w, And(og, done_))
        c.implies(fin, w, f"{nm}:printed", s.where(), "success is reported although nothing was printed")


def panics(c, s, nm, here):
    bad = [o for o in s.obl if not ((lambda g: g is FALSE or num.refute(g))(p01.patterns(And(here, o.guard))))]
    for o in bad:
        c.fact(False, f"{nm}:panic:{o.name}", f"{o.site} {o.fn[-1] if o.fn else ''}", f"a bad option value ends in a panic: {o.name}")
    if not bad:
        c.fact(True, f"{nm}:no-panic", s.where(), "")


def sub(nm):
    def f(c):
        s, ks = c.cli
        k = p31.need(ks, nm)
        outcome(c, s, nm, k.here, p31.outputs(s, k))
        panics(c, s, nm, k.here)
    f.__name__ = nm
    return f


def generate(c):
    s, ks = c.cli
    k = p31.need(ks, "GenerateFrom")
    rs = p31.calls(s, k, "generate::generate")
    for r in rs:
        c.implies(Ands([done(c, s), k.here, r.guard]), p31.success(r), "GenerateFrom:reported", r.site, "success is reported although no credentials were generated")
    c.implies(And(done(c, s), k.here), rs[0].guard if rs else FALSE, "GenerateFrom:done", s.where(), "success is reported although nothing was generated")
    ops = [i for i, b in c.prog.bodies.items() if b["kind"] in ("fn", "method") and b["pub"] and any(b["name"].startswith(p26.WL + x + "::") for x in ("Wallet", "Credentials", "BitcoinCredentials"))]
    ops.append(c.fn("stacks_core::c32::encode_address"))
    g = c.run(c.fn("sbtc::commands::generate::generate"), opaque=ops)
    k2 = p31.Cmd()
    k2.here = TRUE
    outcome(c, g, "generate", TRUE, p31.outputs(g, k2))


PARTS = [p31.load, sub("Deposit"), sub("Withdraw"), sub("Broadcast"), generate]
