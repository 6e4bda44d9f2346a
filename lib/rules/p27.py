"""Path tables of every public function of the asset contract: each path whose effects stay carries the comparison
of the stored owner with the immediate caller."""
from fw import *
from contracts import *
import contracts

SCOPE = None
BASE = contracts.BASE
LEVEL = "other"
RULE = "for each public function that can change anything but the holder's own transfer: owner = contract-caller on every path that does not end in an error; the two setters store exactly their argument; nothing else stores the owner"
ASSUME = ["Clarity rolls back every effect of a public function that returns an error"]

SETTERS = [("set-contract-owner", lambda n: n.owner, lambda a: a), ("set-bitcoin-wallet-public-key", lambda n: n.key, lambda a: ("some", a))]


def guarded(c):
    for con in assets(c):
        n = Names(c, con)
        for f in con.public():
            t = table(c, con, f.name)
            changes = [p for p in t if any(e[0] != "ft-transfer" for e in state_effects(p))]
            if not changes:
                continue
            for p in t:
                if not committed(p):
                    continue
                c.fact(p.holds(n.is_owner), f"{con.path}:{f.name}:owner", where(con, f.name), f"{f.name} succeeds for a caller that is not the contract owner, with effects {shown(state_effects(p))}")
        for f in con.fns.values():
            if f.kind == "read-only":
                bad = [p for p in table(c, con, f.name) if state_effects(p)]
                c.fact(not bad, f"{con.path}:{f.name}:reads", where(con, f.name), "a read-only function changes state")


def setters(c):
    for con in assets(c):
        n = Names(c, con)
        for fn, var, val in SETTERS:
            f = need(con, fn, "public", 1)
            t = [p for p in table(c, con, fn) if committed(p)]
            arg = Eval(con).symarg(0, f.params[0][1])
            for p in t:
                eff = state_effects(p)
                c.fact(eff == [("var-set", var(n), val(arg))], f"{con.path}:{fn}:stores", where(con, fn), f"{fn} does not just store its argument: {shown(eff)}")
            c.fact(any(set(p.lits) <= {n.is_owner} for p in t), f"{con.path}:{fn}:owner-can", where(con, fn), f"{fn} refuses the contract owner")
        for f in con.public():
            for p in table(c, con, f.name):
                if not committed(p):
                    continue
                for e in state_effects(p):
                    if e[0] == "var-set":
                        ok = (e[1], f.name) in {(n.owner, "set-contract-owner"), (n.key, "set-bitcoin-wallet-public-key")}
                        c.fact(ok, f"{con.path}:{f.name}:var:{e[1]}", where(con, f.name), f"{f.name} stores {e[1]}")


def start(c):
    for con in assets(c):
        n = Names(c, con)
        for v, want in ((n.owner, "tx-sender"), (n.key, "none")):
            if v not in con.vars:
                raise Missing(f"data variable {v}")
            c.fact(str(con.vars[v][1]) == want, f"{con.path}:{v}:start", con.path, f"{v} starts as {strip(con.vars[v][1])}, not as {want}")
        for o in con.other:
            h = str(o[0]) if isinstance(o, list) and o else str(o)
            c.fact(h in ("impl-trait", "use-trait", "define-trait"), f"{con.path}:toplevel:{h}", f"{con.path}:{getattr(o, 'line', '?')}", f"something runs when the contract is deployed, or other state is defined: {shown(strip(o))}")


PARTS = [guarded, setters, start]
