"""Who may construct a contract name, under which condition: every construction site in the program is
found in the MIR, attributed to the public functions that reach it, and shown to be guarded by a match of
the very text that is kept; the pattern's language is compared with the documented grammar by automata."""
from fw import *
import spec
import rx
import json
T_ = terms.T

LEVEL = "other"
RULE = "a contract name exists only for a text of the documented grammar, keeps that text, and cannot be changed; every text of the grammar is accepted; language of the pattern = documented language (automata equivalence)"
ASSUME = ["the regex crate matches what its syntax says"]

CN = "stacks_core::contract_name::ContractName"
T = ("adt", CN, ())
GRAMMAR = "^([a-zA-Z]([a-zA-Z0-9]|[-_]){0,39})$|^__transient$"


def reaches(c):
    """public functions (and trait methods) through which a ContractName is constructed"""
    sites = {}
    callers = {}
    for bid, b in c.prog.bodies.items():
        for bl in b["blocks"]:
            for s in bl["s"]:
                if s[0] == "assign" and s[2][0] == "agg" and s[2][1].get("k") == "adt" and s[2][1]["p"] == CN:
                    sites.setdefault(bid, []).append(s[3])
            t = json.dumps([bl["s"], bl["t"]])
            for m in ("\"p\": \"",):
                i = 0
                while True:
                    i = t.find(m, i)
                    if i < 0:
                        break
                    j = t.index('"', i + len(m))
                    callers.setdefault(t[i + len(m):j], set()).add(bid)
                    i = j
    pub, seen = {}, set()
    # the constructor of a tuple struct used as a function (`map(ContractName)`) is a construction site too
    for k in list(callers):
        if k in (CN + "::{constructor#0}", CN + "::{ctor}"):
            for x in callers[k]:
                sites.setdefault(x, []).append(c.prog.bodies[x]["span"])
    w = list(sites)
    while w:
        b = w.pop()
        if b in seen:
            continue
        seen.add(b)
        B = c.prog.bodies[b]
        if B["kind"] == "closure" or B.get("parent") and B["kind"] not in ("fn", "method"):
            w.append(B["parent"] if B.get("parent") else B["root"])
            continue
        imp = c.prog.impl_by_id.get(B.get("impl"))
        if B["pub"] or imp is not None and imp["trait"]:
            pub[b] = sites.get(b)
            continue
        cs = [x for x in callers.get(b, ()) if x != b]
        w += cs
    return sites, pub


def matches(t):
    return {x for x in subterms(t) if x.op == "call" and x.a[0].split("::")[-1] == "is_match" and "regex" in x.a[0]}


def pattern(m):
    r = {x for x in subterms(m.a[2][0]) if x.op == "call" and x.a[0].endswith("Regex::new")}
    if len(r) == 1:
        p = r.pop().a[2][0]
        if p.op == "str":
            return p.a[0]
    return None


def sites(c):
    ss, pub = reaches(c)
    c.fact(bool(ss), "sites", "stacks-core/src/contract_name.rs", "no construction site of contract names is found")
    f = c.prog.adts[c.has_adt(CN)]
    c.fact(not any(x["pub"] for v in f["v"] for x in v["f"]), "private", "stacks-core/src/contract_name.rs", "the text of a contract name can be set from outside")
    for b in sorted(pub):
        B = c.prog.bodies[b]
        imp = c.prog.impl_by_id.get(B.get("impl"))
        if imp is not None and imp["derived"] and imp["trait"] and imp["trait"].endswith("clone::Clone"):
            c.fact(True, f"construct:{B['name']}", B["span"], "")
            continue
        if imp is not None and imp["derived"]:
            c.fact(False, f"construct:{imp['trait']}", B["span"], f"a contract name is made without validation by the derived {imp['trait']}")
            continue
        subs = (BYTES,) if B["ngen"] == 1 else ()
        s = c.run(b, subs=subs) if B["ngen"] <= 1 else None
        if s is None:
            c.fact(False, f"construct:{B['name']}", B["span"], "a generic function constructs contract names")
            continue
        n = 0
        for g, x in made(s.cur, s.ret):
            n += 1
            c.fact(guarded(c, g, x.a[2]), f"construct:{B['name']}", s.where(), f"a contract name is made of a text that has not been validated: {show(x.a[2])[:200]}")
        c.fact(n > 0 or s.cur is FALSE, f"construct:{B['name']}:analysed", s.where(), "the construction of a contract name is not understood")


def made(g, t):
    """(guard, contract name) for every contract name constructed within the value t"""
    seen, out = set(), []

    def go(g, t):
        if (g, t) in seen or g is FALSE or not isinstance(t, T_):
            return
        seen.add((g, t))
        if len(seen) > 20000:
            raise OverflowError("too many cases")
        if t.op == "g":
            v, cs, df = t.a
            for l, x in cs:
                go(And(g, lit(v, l)), x)
            if df is not None:
                go(And(g, lit_of(v, ("other", [l for l, _ in cs]))), df)
        elif t.op == "adt":
            if t.a[0] == CN:
                out.append((g, t))
            for x in t.a[2:]:
                go(g, x)
        elif any(x.op == "adt" and x.a[0] == CN for x in subterms(t)):
            out.extend((g, x) for x in subterms(t) if x.op == "adt" and x.a[0] == CN)
    go(g, t)
    return out


def guarded(c, g, x):
    for m in matches(g):
        if same_text(m.a[2][1], x):
            p = pattern(m)
            if p is not None and lang(p) is None and num.refute(And(g, Not(boolify(m)))):
                return True
    return False


def same_text(a, b):
    a, b = norm(a), norm(b)
    return a is b or models.asbytes(a) is models.asbytes(b)


_l = {}


def lang(p):
    if p not in _l:
        try:
            _l[p] = rx.difference(p, GRAMMAR)
        except ValueError as e:
            _l[p] = f"(pattern not understood: {e})"
    return _l[p]


def constructor(c):
    for key, s in (("new", c.run(c.fn(CN + "::new"))), ("try_from", c.call("core::convert::TryFrom", T, "try_from", targs=(("ref", False, STR),)))):
        text = s.args[0]
        ms = [m for m in matches(s.ret) if same_text(m.a[2][1], text)]
        if not c.fact(len(ms) == 1, f"{key}:validated", s.where(), "the given text is not validated by one match of a pattern"):
            continue
        p = pattern(ms[0])
        d = lang(p) if p is not None else "?"
        c.fact(p is not None and d is None, f"{key}:grammar", s.where(), f"the pattern {p!r} and the documented grammar differ, for instance on {d!r}")
        m = boolify(ms[0])
        n = ln(text)
        # what the grammar says about lengths: 1..40 characters, all of one byte
        c.implies(And(And(m, lt(ZERO, n)), le(n, I(40))), s.ok, f"{key}:accepts", s.where(), "a text of the documented grammar is refused")
        c.implies(s.ok, m, f"{key}:refuses", s.where(), "a text outside the documented grammar is accepted")
        c.fact(all(same_text(x.a[2], text) for x in subterms(s.okval) if x.op == "adt" and x.a[0] == CN) and any(x.op == "adt" and x.a[0] == CN for x in subterms(s.okval)), f"{key}:text", s.where(), "the contract name does not keep the text it was made from")
        c.total(s, key, "validating a contract name")


def forms(c):
    x = mk("sym", "name", T)
    t = c.core_of(x)
    for im in c.prog.impls:
        if im["self"] != T or im["derived"] or not im["trait"]:
            continue
        tr = im["trait"].split("::")[-1]
        if tr in ("DerefMut", "AsMut", "BorrowMut"):
            c.fact(False, f"forms:{tr}", c.prog.bodies[next(iter(im["items"].values()))]["span"] if im["items"] else "-", "a contract name can be changed after it was validated")
        m = {"AsRef": "as_ref", "Deref": "deref", "Borrow": "borrow", "Into": "into"}.get(tr)
        if m:
            s = c.run(im["items"][m], [x])
            c.fact(same_text(simp(s.cur, s.ret), t), f"forms:{tr}", s.where(), f"the text reported is not the name: {show(s.ret)[:200]}")
        if tr == "Display":
            v = models.display(engine.ENG, x, T)
            c.fact(v is not None and same_text(v, t), "forms:Display", c.prog.bodies[im["items"]["fmt"]]["span"], f"the text printed is not the name: {show(v)[:200] if v is not None else None}")
    for b, B in c.prog.bodies.items():
        imp = c.prog.impl_by_id.get(B.get("impl"))
        if imp is not None and imp["self"] == T and B["kind"] == "method" and B["args"]:
            a = B["locals"][1]
            a = engine.cty(a) if isinstance(a, dict) else a
            if a is not None and a[0] == "ref" and a[1] and unref(a) == T:
                c.fact(False, f"forms:{B['name']}", B["span"], "a method changes a contract name after it was validated")


PARTS = [sites, constructor, forms]
