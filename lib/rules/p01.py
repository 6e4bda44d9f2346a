"""Abstract interpretation of every function that takes bytes, text or transactions from outside. Each place
where the compiled code can panic (bounds, overflow, unwrap, slice of a slice, character boundary) is an
obligation: the condition under which it fails, over the function's arguments, must be unsatisfiable."""
from fw import *
import spec
import p12
import rx

LEVEL = "other"
RULE = "for every decoder and parser, the failure condition of each panic site on its call graph is unsatisfiable for all arguments"
ASSUME = ["library functions do not panic on the arguments they document as valid"]

READ = ("ref", False, BYTES)


def sites(c):
    """(name, body, generic arguments, argument list) of each function that reads outside data"""
    p = c.prog
    r = []
    for im in p.impls:
        tr = (im["trait"] or "").split("<")[0]
        st = im["self"]
        if im["derived"] or not tr:
            continue
        n = len(im.get("ngen") or []) if isinstance(im.get("ngen"), list) else im.get("ngen") or 0
        if tr == spec.CODEC and "codec_deserialize" in im["items"]:
            r.append((im, "codec_deserialize"))
        elif tr in ("core::convert::TryFrom", "core::str::traits::FromStr", "core::convert::TryInto"):
            for m in ("try_from", "from_str", "try_into"):
                if m in im["items"]:
                    r.append((im, m))
        elif tr.endswith("de::Deserialize") and "deserialize" in im["items"]:
            r.append((im, "deserialize"))
    return r


TXT = ("ref", False, STR)
NAMED = [
    ("stacks_core::c32::decode", (TXT,)),
    ("stacks_core::c32::version_check_decode", (TXT,)),
    ("stacks_core::c32::decode_address", (TXT,)),
    ("stacks_core::contract_name::ContractName::new", ()),
    ("stacks_core::crypto::wif::WIF::from_bytes", (BYTES,)),
    ("stacks_core::wallet::Wallet::new", (TXT,)),
    ("sbtc_core::operations::op_return::deposit::Deposit::parse", ()),
    ("sbtc_core::operations::op_return::withdrawal_request::try_parse_withdrawal_request", ()),
    ("sbtc_core::operations::op_return::withdrawal_request::recover_signature", ()),
]
UINT = [(m, a) for m, a in (("from_be_bytes", BYTES), ("from_le_bytes", BYTES), ("from_be_hex", TXT), ("from_le_hex", TXT))]


def concrete(c, t, env):
    return t if t is None else tsub(t, env)


def carried(t):
    """the condition depends on what a loop carries from one round to the next"""
    return any(x.op in ("lv", "fold", "while", "idx", "bvar") for x in subterms(t))


def patterns(g):
    """constant regular expressions that are well formed compile"""
    m = {}
    for t in subterms(g):
        if t.op == "discr" and t.a[0].op == "call" and t.a[0].a[0].endswith("Regex::new") and t.a[0].a[2][0].op == "str":
            try:
                rx.parse(t.a[0].a[2][0].a[0])
                m[t] = ZERO
            except Exception:
                pass
    return subst(g, m) if m else g


def check(c, s, k, pre=TRUE):
    bad = []
    n = 0
    for o in s.obl:
        n += 1
        g = patterns(And(pre, o.guard))
        if g is FALSE or num.refute(g):
            continue
        bad.append(o)
    c.sites = getattr(c, "sites", 0) + n
    for o in bad:
        a = show(o.args)[:160] if isinstance(o.args, T) else [show(x)[:80] if isinstance(x, T) else x for x in (o.args or ())]
        w = f"{o.site} {o.fn[-1] if o.fn else ''}"
        if o.loops and carried(o.guard):
            c.undecided.append(f"{k}: {w}: {o.name} {a}")
        else:
            c.fact(False, f"{k}:{o.name}", w, f"outside data can make this fail: {o.name} {a}; when {show(o.guard)[:200]}")
    if not bad:
        c.fact(True, f"{k}:total", s.where(), "")


def instances(c, im):
    """the concrete types an implementation for a generic type stands for"""
    st = im["self"]
    if st[0] == "adt" and st[1] == spec.UINT:
        return [{0: ("cval", n)} for n in (4, 8)]
    if st[0] == "adt" and st[1] == p12.H + "Hasher":
        ts = [(t, n) for nm, t, n, algs in p12.types(c) if t[1] != st[1]]
        i, j = st[2][0][1], st[2][1][2]
        return [{i: t, j: ("cval", n)} for t, n in ts]
    return [{}]


def inst(t, env):
    """a type with its parameters replaced"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "param" and len(t) == 3 and t[1] in env:
        return env[t[1]]
    if t[0] == "cparam" and len(t) == 3 and t[2] in env:
        return env[t[2]]
    return tuple(inst(x, env) if isinstance(x, tuple) else x for x in t)


def short(t):
    return t[1].split("::")[-1] if t[0] in ("adt", "num") else t[0]


def impls(c):
    n = 0
    for im, m in sites(c):
        for env in instances(c, im):
            ta = [inst(x, env) for x in im["a"]]
            k = ":".join([m, short(ta[0])] + [short(unref(x)) for x in ta[1:]] + [str(x[1]).split("::")[-1] for x in env.values()])
            codec = m == "codec_deserialize"
            bid, subs = c.method(im["trait"], ta[0], m, tuple(ta[1:]), extra=(BYTES,) if codec else ())
            data = mk("sym", "data", BYTES)
            check(c, c.run(bid, [("mut", data)] if codec else None, subs=subs), k)
            n += 1
    c.fact(n >= 25, "readers", "-", f"only {n} decoders found")


def named(c):
    for f, subs in NAMED:
        check(c, c.run(c.fn(f), subs=subs), f.split("::")[-2] + "::" + f.split("::")[-1])
    for nm, t, n, algs in p12.types(c):
        for m, extra in (("from_bytes", ()), ("from_hex", (TXT,))):
            bid, subs = c.method(p12.HASHING, t, m, (("cval", n),), extra=extra)
            check(c, c.run(bid, subs=subs), f"{nm}::{m}")
    for m, a in UINT:
        for n in (4, 8):
            check(c, c.run(c.fn("stacks_core::uint::Uint::" + m), subs=(("cval", n), a)), f"Uint{n}::{m}")


PARTS = [impls, named]
