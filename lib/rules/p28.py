"""Path tables of every function of the asset contract that mints or burns: literals on the path, writes to the
ledger of used transactions, and the token effect are compared argument by argument."""
from fw import *
from contracts import *
import contracts

SCOPE = None
BASE = contracts.BASE
LEVEL = "other"
RULE = "a path whose effects stay and that mints or burns has: inclusion proof accepted for the same txid, height, header, index and hashes; no entry for that txid before; one entry written for that txid with the signed amount; nothing else touches the ledger of txids"
ASSUME = ["Clarity rolls back every effect of a public function that returns an error", "the verification contract decides inclusion (P34)"]

OPS = {"mint": ("ft-mint", 1), "burn": ("ft-burn", -1)}


def args(con, f):
    e = Eval(con)
    return [e.symarg(i, t) for i, (_, t) in enumerate(f.params)]


def ledger(c):
    for con in assets(c):
        n = Names(c, con)
        for f in con.public():
            for p in table(c, con, f.name):
                if not committed(p):
                    continue
                eff = state_effects(p)
                tok = [e for e in eff if e[0] in ("ft-mint", "ft-burn")]
                led = [e for e in eff if e[0].startswith("map-") and e[1] == n.map]
                if not tok and not led:
                    continue
                c.fact(f.name in OPS, f"{con.path}:{f.name}:who", where(con, f.name), f"{f.name} mints, burns or writes the ledger of used transactions")


def ops(c):
    for con in assets(c):
        n = Names(c, con)
        for fn, (eff, sign) in OPS.items():
            f = need(con, fn, "public", 7)
            amount, who, txid, height, proof, index, header = args(con, f)
            call = ("call", None, "was-txid-mined", (height, txid, header, ("tup", (("hashes", proof), ("tx-index", index)))))
            fresh = ("not", ("some?", ("map", n.map, txid)))
            token = (eff, n.token, amount, who)
            good = 0
            for p in table(c, con, fn):
                if not committed(p):
                    continue
                w = where(con, fn)
                k = f"{con.path}:{fn}"
                ok = [l for l in p.lits if l[0] == "ok?" and l[1][0] == "call" and ("call", None) + l[1][2:4] == call and len(l[1]) == 4]
                c.fact(bool(ok), f"{k}:proof", w, f"{fn} succeeds on a path where no inclusion proof was accepted for its own transaction, height, header, index and hashes: {shown(p.lits, 400)}")
                c.fact(fresh in p.lits, f"{k}:fresh", w, f"{fn} succeeds for a transaction that was already used: {shown(p.lits, 400)}")
                e = state_effects(p)
                m = [x for x in e if x[0].startswith("map-") and x[1] == n.map]
                c.fact(m == [("map-write", n.map, txid, mul(amount, ("num", sign)))], f"{k}:record", w, f"{fn} does not record its transaction once with the amount it {fn}s: {shown(m)}")
                t = [x for x in e if x not in m]
                c.fact(t == [token], f"{k}:token", w, f"{fn} changes something else than the amount and account given: {shown(t)}")
                c.fact(p.val == ("ok", TRUE), f"{k}:result", w, f"{fn} returns {shown(p.val)}")
                note = [x for x in p.eff if x[0] == "print"]
                c.fact(note == [("print", ("tup", (("notification", ("s", fn)), ("payload", txid))))], f"{k}:announced", w, f"{fn} does not announce its transaction: {shown(note)}")
                good += set(p.lits) <= {n.is_owner, fresh, ("ok?", token)} | set(ok)
            c.fact(good > 0, f"{con.path}:{fn}:can", where(con, fn), f"{fn} refuses the owner with a proven, unused transaction")
        ty = con.maps.get(n.map)
        c.fact(ty is not None and strip(ty[0]) == ("buff", "32"), f"{con.path}:{n.map}:key", con.path, "the ledger of used transactions is not keyed by a whole transaction id")


PARTS = [ledger, ops]
