"""A small Clarity interpreter for demonstrations: deploys contracts of a plan and calls their functions."""
import re, hashlib, os, copy, sys
import yaml

TOK = re.compile(r'[\s]+|;[^\n]*|(?P<t>u?"(?:\\.|[^"\\])*"|[(){},:]|[^\s(){},:;"]+)')


class U(int):
    pass


class P(str):
    pass


class S(str):
    pass


class Abort(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


def parse(text):
    ts = [m.group("t") for m in TOK.finditer(text) if m.group("t")]
    i = 0

    def one():
        nonlocal i
        t = ts[i]
        i += 1
        if t == "(":
            o = []
            while ts[i] != ")":
                o.append(one())
            i += 1
            return o
        if t == "{":
            o = ["tuple"]
            while ts[i] != "}":
                k = one()
                if ts[i] == ":":
                    i += 1
                o.append([k, one()])
                if ts[i] == ",":
                    i += 1
            i += 1
            return o
        return t
    out = []
    while i < len(ts):
        out.append(one())
    return out


class Chain:
    def __init__(self, root, deployer, burn=None):
        self.root, self.deployer, self.burn = root, deployer, burn or {}
        self.con, self.state = {}, {"vars": {}, "maps": {}, "ft": {}}
        self.events = []

    def deploy_plan(self, plan):
        for b in yaml.safe_load(open(os.path.join(self.root, plan)))["plan"]["batches"]:
            for t in b["transactions"]:
                p = t["contract-publish"]
                self.deploy(p["contract-name"], p["path"])

    def deploy(self, name, path):
        c = {"fn": {}, "const": {}, "ft": {}}
        self.con[name] = c
        ctx = (name, P(self.deployer), P(self.deployer))
        for f in parse(open(os.path.join(self.root, path)).read()):
            h = f[0]
            if h in ("define-public", "define-private", "define-read-only"):
                c["fn"][f[1][0]] = (h, [p[0] for p in f[1][1:]], f[2:])
            elif h == "define-constant":
                c["const"][f[1]] = self.ev(f[2], {}, ctx)
            elif h == "define-data-var":
                self.state["vars"][name, f[1]] = self.ev(f[3], {}, ctx)
            elif h == "define-map":
                self.state["maps"][name, f[1]] = {}
            elif h == "define-fungible-token":
                self.state["ft"][name, f[1]] = {}
                c["ft"][f[1]] = self.ev(f[2], {}, ctx) if len(f) > 2 else None
            elif h not in ("impl-trait", "use-trait", "define-trait"):
                self.ev(f, {}, ctx)

    def call(self, sender, name, fn, *args, caller=None):
        save, ev = copy.deepcopy(self.state), list(self.events)
        try:
            r = self.apply(name, fn, list(args), (name, P(sender), P(caller or sender)))
        except Abort as a:
            r = ("err", f"abort {a}")
        if isinstance(r, tuple) and r[0] == "err":
            self.state, self.events = save, ev
        return r

    def apply(self, name, fn, args, ctx):
        h, ps, body = self.con[name]["fn"][fn]
        if len(ps) != len(args):
            raise Abort("arguments")
        env, r = dict(zip(ps, args)), None
        try:
            for b in body:
                r = self.ev(b, env, ctx)
        except Ret as x:
            r = x.v
        return r

    def ev(self, n, env, ctx):
        name, sender, caller = ctx
        E = lambda x: self.ev(x, env, ctx)
        if isinstance(n, str):
            if n in env:
                return env[n]
            if n in ("true", "false"):
                return n == "true"
            if n == "none":
                return None
            if n == "tx-sender":
                return sender
            if n == "contract-caller":
                return caller
            if n == "burn-block-height":
                return U(max(self.burn, default=0) + 1)
            if n == "block-height":
                return U(1)
            if re.fullmatch(r"u\d+", n):
                return U(n[1:])
            if re.fullmatch(r"-?\d+", n):
                return int(n)
            if n.startswith("0x"):
                return bytes.fromhex(n[2:])
            if n[0] in "u\"":
                return S(n[n.index('"') + 1:-1])
            if n[0] == "'":
                return P(n[1:])
            if n[0] == ".":
                return P(self.deployer + n)
            return self.con[name]["const"][n]
        h = n[0]
        st = self.state
        if h in self.con[name]["fn"]:
            return self.apply(name, h, [E(x) for x in n[1:]], ctx)
        if h == "begin":
            r = None
            for x in n[1:]:
                r = E(x)
            return r
        if h == "let":
            e = dict(env)
            for k, v in n[1]:
                e[k] = self.ev(v, e, ctx)
            r = None
            for x in n[2:]:
                r = self.ev(x, e, ctx)
            return r
        if h == "if":
            return E(n[2]) if E(n[1]) else E(n[3])
        if h == "and":
            return all(E(x) for x in n[1:])
        if h == "or":
            return any(E(x) for x in n[1:])
        if h == "asserts!":
            if not E(n[1]):
                raise Ret(E(n[2]))
            return True
        if h == "tuple":
            return {k: E(v) for k, v in n[1:]}
        if h == "get":
            t = E(n[2])
            return ("some", t[1][n[1]]) if isinstance(t, tuple) else None if t is None else t[n[1]]
        if h == "match":
            v = E(n[1])
            if v is not None and v[0] in ("some", "ok"):
                return self.ev(n[3], {**env, n[2]: v[1]}, ctx)
            return E(n[4]) if len(n) == 5 else self.ev(n[5], {**env, n[4]: v[1]}, ctx)
        if h == "var-get":
            return st["vars"][name, n[1]]
        if h == "var-set":
            st["vars"][name, n[1]] = E(n[2])
            return True
        if h in ("map-get?", "map-set", "map-insert", "map-delete"):
            m, k = st["maps"][name, n[1]], repr(E(n[2]))
            if h == "map-get?":
                return ("some", m[k]) if k in m else None
            if h == "map-delete":
                return m.pop(k, None) is not None
            if h == "map-insert" and k in m:
                return False
            m[k] = E(n[3])
            return True
        if h == "contract-call?":
            t = n[1].lstrip(".")
            return self.apply(t, n[2], [E(x) for x in n[3:]], (t, sender, P(self.deployer + "." + name)))
        if h == "fold":
            f, l, acc = n[1], E(n[2]), E(n[3])
            for x in l:
                acc = self.apply(name, f, [x, acc], ctx)
            return acc
        if h == "as-contract":
            me = P(self.deployer + "." + name)
            return self.ev(n[1], env, (name, me, me))
        if h in ("get-burn-block-info?",):
            k = E(n[2])
            return ("some", self.burn[k]) if k in self.burn else None
        if h.startswith("ft-"):
            tok = (name, n[1])
            bal = st["ft"][tok]
            a = [E(x) for x in n[2:]]
            if h == "ft-get-supply":
                return U(sum(bal.values()))
            if h == "ft-get-balance":
                return U(bal.get(a[0], 0))
            if a[0] <= 0:
                return ("err", U(3))
            if h == "ft-mint?":
                if sum(bal.values()) + a[0] > (self.con[name]["ft"][n[1]] or 1 << 127):
                    return ("err", U(1))
                bal[a[1]] = bal.get(a[1], 0) + a[0]
            elif bal.get(a[1], 0) < a[0]:
                return ("err", U(1))
            elif h == "ft-burn?":
                bal[a[1]] -= a[0]
            else:
                if a[1] == a[2]:
                    return ("err", U(2))
                bal[a[1]] -= a[0]
                bal[a[2]] = bal.get(a[2], 0) + a[0]
            return ("ok", True)
        a = [E(x) for x in n[1:]] if h not in ("unwrap!", "unwrap-err!") else [E(n[1])]
        x = a[0] if a else None
        good = x is not None and isinstance(x, tuple) and x[0] in ("some", "ok")
        if h == "try!":
            if good:
                return x[1]
            raise Ret(x)
        if h == "unwrap!":
            if good:
                return x[1]
            raise Ret(E(n[2]))
        if h == "unwrap-panic":
            if good:
                return x[1]
            raise Abort("unwrap")
        if h == "default-to":
            return a[1][1] if a[1] is not None else x
        if h in ("ok", "err", "some"):
            return (h, x)
        if h in ("is-ok", "is-some"):
            return good
        if h in ("is-err", "is-none"):
            return not good
        if h == "is-eq":
            return all(repr(y) == repr(x) for y in a)
        if h == "not":
            return not x
        if h in ("<", ">", "<=", ">="):
            return {"<": x < a[1], ">": x > a[1], "<=": x <= a[1], ">=": x >= a[1]}[h]
        if h in ("+", "-", "*", "/", "mod", "pow", "bit-and", "bit-or", "bit-shift-left", "bit-shift-right"):
            r = int(x)
            if h == "-" and len(a) == 1:
                r = -r
            for y in a[1:]:
                r = {"+": lambda: r + y, "-": lambda: r - y, "*": lambda: r * y, "/": lambda: r // y, "mod": lambda: r % y, "pow": lambda: r ** y, "bit-and": lambda: r & y,
                     "bit-or": lambda: r | y, "bit-shift-left": lambda: r << y, "bit-shift-right": lambda: r >> y}[h]()
            if isinstance(x, U):
                if r < 0 or r >> 128:
                    raise Abort("arithmetic")
                return U(r)
            return r
        if h == "to-int":
            return int(x)
        if h == "to-uint":
            return U(x)
        if h == "sha256":
            return hashlib.sha256(x).digest()
        if h == "concat":
            return x + a[1]
        if h == "len":
            return U(len(x))
        if h == "list":
            return a
        if h == "merge":
            return {**x, **a[1]}
        if h in ("element-at", "element-at?"):
            return ("some", x[a[1]]) if a[1] < len(x) else None
        if h == "slice?":
            return ("some", x[a[1]:a[2]]) if a[1] <= a[2] <= len(x) else None
        if h == "as-max-len?":
            return ("some", x) if len(x) <= a[1] else None
        if h == "buff-to-uint-le":
            return U(int.from_bytes(x, "little"))
        if h == "to-consensus-buff?":
            return ("some", bytes([1 if isinstance(x, U) else 0]) + int(x).to_bytes(16, "big"))
        if h == "print":
            self.events.append(x)
            return x
        raise Exception(f"clarrun: unknown function {h}")


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def block(txids, version=2):
    """(header, hash as the burn chain reports it, [(index, hashes) of every transaction]); txids as displayed"""
    lv = [t[::-1] for t in txids]
    proofs = [[] for _ in lv]
    pos = list(range(len(lv)))
    while len(lv) > 1:
        if len(lv) % 2:
            lv.append(lv[-1])
        for t, p in enumerate(pos):
            proofs[t].append(lv[p ^ 1])
            pos[t] = p // 2
        lv = [dsha(lv[i] + lv[i + 1]) for i in range(0, len(lv), 2)]
    h = version.to_bytes(4, "little") + bytes(32) + lv[0] + bytes(12)
    return h, dsha(h)[::-1], [(U(i), p) for i, p in enumerate(proofs)]


ASSET = os.path.join("romeo", "asset-contract")


def chain(burn=None, plan="deployments/default.testnet-plan.yaml"):
    c = Chain(os.path.join(os.getcwd(), ASSET), "ST_OWNER", burn)
    c.deploy_plan(plan)
    return c
