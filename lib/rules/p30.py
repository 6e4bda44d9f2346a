"""The deployment plans resolved to sources; effect analysis of the published verification contract; comparison of its
path tables with those of the contract the tests run against, with the debug flag set the same way."""
from fw import *
from contracts import *
import contracts
import copy
import p34

SCOPE = None
BASE = contracts.BASE
LEVEL = "other"
RULE = "what each plan publishes under the name the asset contract calls: no public function changes state, the proof check reads nothing but its arguments and the burn chain, and equals the tested contract up to one boolean constant; the asset contract comes after it"
ASSUME = ["the plans in romeo/asset-contract/deployments are what is deployed"]


def verifiers(c):
    out = {}
    for plan, net, pub in plans(c):
        d = dict((n, p) for n, p in pub if n)
        if "asset" not in d:
            raise Missing(f"asset in {plan}")
        for v in verifier_name(c, contract(c, d["asset"])):
            if v not in d:
                raise Missing(f"{v} in {plan}")
            out.setdefault(d[v], []).append((plan, v))
    return out


def published(c):
    for plan, net, pub in plans(c):
        names = [n for n, _ in pub]
        c.fact(None not in names, f"{plan}:kinds", plan, "the plan does something else than publishing contracts")
        d = dict((n, p) for n, p in pub if n)
        c.fact(len(d) == len([n for n in names if n]), f"{plan}:once", plan, "the plan publishes two contracts under one name")
        if "asset" not in d:
            raise Missing(f"asset in {plan}")
        for v in verifier_name(c, contract(c, d["asset"])):
            c.fact(v in names and names.index(v) < names.index("asset"), f"{plan}:order", plan, f"the asset contract is published before {v}, which it calls")
        c.fact(d["asset"] == project(c).get("asset"), f"{plan}:asset", plan, "the asset contract published is not the one of the project, which the tests run")


def mentions(t, what):
    if isinstance(t, tuple):
        return (len(t) > 1 and t[0] in what) or any(mentions(x, what) for x in t)
    return False


def stateless(c):
    for path, by in verifiers(c).items():
        con = contract(c, path)
        for f in con.fns.values():
            for p in table(c, con, f.name):
                if f.kind == "public":
                    c.fact(not (committed(p) and state_effects(p)), f"{path}:{f.name}:effects", where(con, f.name), f"anyone can change the state of the published verification contract: {shown(state_effects(p))}")
        need(con, "was-txid-mined", "read-only", 4)
        for p in table(c, con, "was-txid-mined"):
            if committed(p):
                c.fact(not mentions((p.lits, p.val), ("map", "var", "call")), f"{path}:inputs", where(con, "was-txid-mined"), "the proof check of the published contract reads stored state")
                c.fact(mentions(p.lits, ("burn-info",)), f"{path}:chain", where(con, "was-txid-mined"), "the proof check of the published contract does not ask the burn chain")
        for o in con.other:
            c.fact(False, f"{path}:toplevel", f"{con.path}:{getattr(o, 'line', '?')}", f"something runs when the contract is deployed: {shown(strip(o))}")


def tested(c):
    pr = project(c)
    for path, by in verifiers(c).items():
        for v in sorted({n for _, n in by}):
            if v not in pr:
                raise Missing(f"{v} in Clarinet.toml")
            dep, tst = contract(c, path), contract(c, pr[v])
            if dep is tst:
                c.fact(True, f"{path}:same", dep.path, "published and tested are one source")
                continue
            off = [k for k in dep.consts if str(dep.consts[k]) == "false" and str(tst.consts.get(k)) == "true"]
            c.fact(len(off) <= 1, f"{path}:flag", dep.path, f"the published and the tested contract differ in several switches: {sorted(off)}")
            need(dep, "was-txid-mined"), need(tst, "was-txid-mined")
            sig = lambda con: (con.fns["was-txid-mined"].kind, strip([t for _, t in con.fns["was-txid-mined"].params]))
            c.fact(sig(dep) == sig(tst), f"{path}:signature", where(dep, "was-txid-mined"), "the published and the tested proof check take different arguments")
            # both are the documented decision: the tested one on the hashes the tests store, and, switched off, on the burn chain
            p34.decides(c, f"{path}:published", dep, p34.BURN)
            flipped = copy.copy(tst)
            flipped.consts = {**tst.consts, **{k: dep.consts[k] for k in off}}
            p34.decides(c, f"{path}:tested:{pr[v]}", flipped, p34.BURN)
            stored = [("map", m, p34.HEIGHT) for m in tst.maps]
            here = {l[1] for p in table(c, tst, "was-txid-mined") if committed(p) for l in p.lits if l[0] == "some?"}
            src = [m for m in stored if m in here]
            p34.decides(c, f"{path}:debug:{pr[v]}", tst, src[0] if src else p34.BURN)
            codes = lambda con: {str(p.val) for p in table(c, con, "was-txid-mined") if not committed(p) and p.kind == "v"}
            c.fact(codes(dep) == codes(tst), f"{path}:errors", where(dep, "was-txid-mined"), f"the published proof check returns other errors than the tested one: {sorted(codes(dep) ^ codes(tst))}")


PARTS = [published, stateless, tested]
