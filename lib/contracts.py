"""The Clarity contracts of the tree: what the deployment plans publish, and the tables of their functions."""
import os, glob
from fw import Missing
from clar import *

DIR = "romeo/asset-contract"
BASE = ["the path enumeration of /verif/lib/clar.py (Clarity parser, models of the Clarity functions the contracts use)",
        "the Clarity virtual machine: errors of public functions roll their effects back, read-only functions cannot write, fungible token functions keep balances"]


def load_yaml(path):
    import yaml
    return yaml.safe_load(open(path))


def plans(c):
    """[(plan, network, [(name, path)])] of every committed deployment plan"""
    out = []
    for p in sorted(glob.glob(os.path.join(c.repo, DIR, "deployments", "*.yaml")) + glob.glob(os.path.join(c.repo, DIR, "deployments", "*.yml"))):
        d = load_yaml(p)
        pub = []
        for b in d["plan"]["batches"]:
            for t in b["transactions"]:
                for kind, x in t.items():
                    if "publish" in kind:
                        pub.append((x["contract-name"], x.get("path")))
                    else:
                        pub.append((None, kind))
        out.append((os.path.relpath(p, c.repo), d.get("network"), pub))
    if not out:
        raise Missing("deployment plans")
    return out


CACHE = {}


def contract(c, path):
    """the contract at a path relative to the contract project"""
    full = os.path.normpath(os.path.join(c.repo, DIR, path))
    if full not in CACHE:
        if not os.path.exists(full):
            raise Missing(f"contract {path}")
        con = Contract(os.path.relpath(full, c.repo), open(full).read(), os.path.basename(path))
        CACHE[full] = con
    con = CACHE[full]
    for f in con.fns.values():
        c.functions.add(f"{con.path}::{f.name}")
    return con


def project(c):
    """{name: path} of the contract project"""
    import tomllib
    p = os.path.join(c.repo, DIR, "Clarinet.toml")
    if not os.path.exists(p):
        raise Missing("Clarinet.toml")
    return {k: v["path"] for k, v in tomllib.load(open(p, "rb")).get("contracts", {}).items()}


def assets(c):
    """the sources published, or tested, as the asset contract"""
    ps = {p for _, _, pub in plans(c) for n, p in pub if n == "asset"}
    pr = project(c)
    if "asset" in pr:
        ps.add(pr["asset"])
    if not ps:
        raise Missing("asset contract")
    return [contract(c, p) for p in sorted(ps)]


def callee_kind(c):
    pr = project(c)

    def kind(target, fn):
        n = target.lstrip(".")
        if not target.startswith(".") or n not in pr:
            return None
        con = contract(c, pr[n])
        return con.fns[fn].kind if fn in con.fns else None
    return kind


def verifier_name(c, con):
    """the contract the asset contract asks for proofs"""
    names = set()

    def walk(n):
        if isinstance(n, list):
            if n and n[0] == "contract-call?":
                names.add(str(n[1]).lstrip("."))
            for x in n:
                walk(x)
    for f in con.fns.values():
        walk(f.body)
    return names


def need(con, fn, kind=None, nargs=None):
    f = con.fns.get(fn)
    if f is None:
        raise Missing(f"{fn} of {con.path}")
    if kind and f.kind != kind:
        raise Missing(f"{kind} function {fn} of {con.path} (it is {f.kind})")
    if nargs is not None and len(f.params) != nargs:
        raise Missing(f"{fn} of {con.path} with {nargs} arguments")
    return f


def where(con, fn):
    return f"{con.path}:{con.fns[fn].line} {fn}"


def table(c, con, fn):
    return Eval(con, callee_kind(c)).table(fn)


def compatible(p, q):
    return all(decide(q.lits, l) is not False for l in p.lits)


# ---- names of the state, found through the getters
class Names:
    def __init__(self, c, con):
        def getter(fn, n=0):
            need(con, fn, "read-only", n)
            t = table(c, con, fn)
            if len(t) != 1 or t[0].kind != "v":
                raise Missing(f"plain getter {fn}")
            return t[0].val
        o = getter("get-contract-owner")
        k = getter("get-bitcoin-wallet-public-key")
        m = getter("get-amount-by-btc-txid", 1)
        b = getter("get-balance", 1)
        if o[0] != "var" or k[0] != "var":
            raise Missing("getters that return the owner and the wallet key as stored")
        if m[0] != "opt" or m[1][0] != "map" or m[1][2] != ("arg", 0, 32) or len(m[1]) != 3:
            raise Missing("a getter that returns the amount stored for the transaction id given")
        if b[0] != "ok" or b[1][0] != "ft-get-balance" or b[1][2:] != (("arg", 0),):
            raise Missing("a getter that returns the balance of the account given")
        self.owner, self.key, self.map, self.token = o[1], k[1], m[1][1], b[1][1]

    @property
    def is_owner(self):
        return eq(("var", self.owner), ("kw", "contract-caller"))


def shown(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "…"
