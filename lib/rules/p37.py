"""The status a check reports is a decision tree over what the node answered. Every path to every leaf of it, together
with the condition under which the report is made at all, is classified by what it knows about the answers (found, mined,
not known, failed) and compared with what the leaf claims."""
from fw import *
from rio import *

SCOPE = "romeo"
LEVEL = "other"
RULE = "every path to a reported status carries the node's answers that justify it; the mempool is asked before the chain when a transaction is reported gone"
ASSUME = ["the nodes answer truthfully", "error -5 is how a bitcoin node says that it does not know a transaction"]

TS = "romeo::event::TransactionStatus"
OPAQUE = ("ProofData::from_block_and_index", "ProofData::to_values")
GONE = ("abort_by_response", "abort_by_post_condition", "dropped_replace_by_fee", "dropped_replace_across_fork", "dropped_too_expensive", "dropped_stale_garbage_collect", "dropped_problematic")


def cases(c, t, i=1):
    """(name of the status, literals) for every way the report can come about"""
    names = [v["n"] for v in c.prog.adts[TS]["v"]]
    for lf in leaves(t.event):
        c.fact(lf is BOT or lf.op == "adt", "report", t.where, f"one report: {show(lf)[:80]}")
    st = engine.ENG.proj(t.event, ("f", i))
    for when, g, st in by_key(c, t, st):
        for lf in leaves(st):
            if lf is BOT:
                continue
            c.fact(lf.op == "adt" and lf.a[0] == TS, "status", t.where, f"({when}) a status that is decided here: {show(lf)[:80]}")
            if lf.op != "adt":
                continue
            n = 0
            for lits, end in paths(And(g, is_path(st, lf)), 60000):
                if end is TRUE:
                    n += 1
                    yield names[lf.a[1]], lits
            c.notes.append(f"({when}) {names[lf.a[1]]}: {n} paths")


def place(c, v):
    """(node call, way to the part of its answer that v is)"""
    way = []
    while True:
        if v.op == "discr":
            way.append("?")
            v = v.a[0]
        elif v.op == "fld":
            way.append(v.a[1])
            v = v.a[0]
        elif v.op == "as":
            way.append(("as", v.a[1]))
            v = v.a[0]
        elif v.op == "cast":
            v = [a for a in v.a if isinstance(a, T)][0]
        elif v.op == "call" and "RpcApi::" in v.a[0]:
            return v, tuple(reversed(way))
        else:
            return None, ()


def fidx(c, ty, name):
    for p, a in c.prog.adts.items():
        if p.split("::")[-1] == ty:
            return [f["n"] for f in a["v"][0]["f"]].index(name)
    raise Shape(f"{ty} is gone")


def bitcoin(c):
    K = Tasks(c, OPAQUE)
    t = K.run("CheckBitcoinTransactionStatus")
    W = t.where
    sub = t.vals[0]
    conf = fidx(c, "GetRawTransactionResult", "confirmations")
    code = fidx(c, "RpcError", "code")
    order = [r for r in t.log if r.kind == "call" and "RpcApi::" in r.name]
    c.fact(not [r for r in order if r.loops], "once", W, "each question is asked once")
    calls = {}
    for r in order:
        n = r.name.split("::")[-1]
        calls.setdefault(n, []).append(r)
        c.fact(len(r.args) > 1 and r.args[1] is sub, f"about:{n}", c_at(t, r), f"{n} asks about the transaction to be checked: {show(r.args[1])[:80]}")
        cl = r.args[0]
        cfg = [x for x in subterms(cl) if is_config_field(c, x, "bitcoin_node_url")]
        other = [x for x in subterms(cl) if x.op == "fld" and any(is_config_field(c, x, f) for f in ("stacks_node_url", "electrum_node_url"))]
        c.fact(bool(cfg) and not other, f"node:{n}", c_at(t, r), f"{n} is put to the configured bitcoin node")
    info, pool = calls.pop("get_raw_transaction_info", []), calls.pop("get_mempool_entry", [])
    c.fact(not calls, "questions", W, f"the status rests on the mempool and the chain only: {', '.join(calls) or 'yes'}")
    c.fact(len(info) == 1 and len(pool) <= 1, "asked", W, f"the chain is asked once and the mempool at most once: {len(info)}, {len(pool)}")
    if len(info) != 1:
        return
    first = bool(pool) and pool[0].idx < info[0].idx
    seen = set()
    for name, lits in cases(c, t):
        st = {}
        for v, l in lits:
            r, way = place(c, v)
            if r is None:
                continue
            m = r.a[0].split("::")[-1]
            s = st.setdefault(m, {})
            if way == ("?",):
                s["ok"] = l == 0
            elif way[:2] == (("as", 0), 0):
                s.setdefault("in", []).append((way[2:], l))
            elif way[:2] == (("as", 1), 0) and "?" not in way and way[-1] == code and l in (-5, 4294967291, 18446744073709551611):
                s["gone"] = True
        R, M = st.get("get_raw_transaction_info", {}), st.get("get_mempool_entry", {})
        r = "failed" if R.get("ok") is False else "unknown"
        if R.get("ok") is False and R.get("gone"):
            r = "gone"
        if R.get("ok"):
            r = "found"
            for way, l in R.get("in", ()):
                if way == (conf, "?") and l == 0:
                    r = "waiting"
                if way == (conf, ("as", 1), 0) and l == 0:
                    r = "waiting"
                if way == (conf, ("as", 1), 0) and isinstance(l, tuple) and 0 in l[1]:
                    r = "mined"
            pos = [l for w, l in R.get("in", ()) if w == (conf, "?")]
            if r == "mined" and 1 not in pos:
                r = "found"
        m = "found" if M.get("ok") else ("gone" if M.get("gone") else "failed") if M.get("ok") is False else "unknown"
        if name == "Confirmed":
            ok = r == "mined"
        elif name == "Broadcasted":
            ok = r == "waiting" or (m == "found" and r not in ("mined", "found"))
        else:
            ok = (m == "gone" and first and r in ("gone", "waiting")) or (not pool and r == "gone")
        k = (name, m, r)
        if k in seen:
            continue
        seen.add(k)
        why = f"a transaction is reported {name} where the mempool's answer is '{m}'" + (" (asked first)" if first else " (not asked first)" if pool else "") + f" and the chain's is '{r}'"
        c.fact(ok, f"bitcoin:{name}:{m}:{r}", W, why)
    for n in ("Confirmed", "Broadcasted", "Rejected"):
        c.fact(any(k[0] == n for k in seen), f"reaches:{n}", W, f"{n} is reported for some answers")


def c_at(t, r):
    return t.where


def stacks(c):
    K = Tasks(c, OPAQUE)
    t = K.run("CheckStacksTransactionStatus")
    W = t.where
    sub = t.vals[0]
    c.fact(simp(t.guard, engine.ENG.proj(t.event, ("f", 0))) is sub, "subject", W, "the report is about the transaction to be checked")
    seen, ok_ans = set(), {}
    for name, lits in cases(c, t):
        said, miss = None, False
        for v, l in lits:
            if l != 1:
                continue
            if v.op == "eq" and (v.a[0].op == "str" or v.a[1].op == "str"):
                s, x = (v.a[0], v.a[1]) if v.a[0].op == "str" else (v.a[1], v.a[0])
                if x not in ok_ans:
                    try:
                        a = answer(x)
                        ok_ans[x] = a.req.method == "get" and a.keys == ("tx_status",) and path_is(a.req, "/extended/v1/tx/", disp(sub))
                        c.fact(ok_ans[x], "asked", W, f"the status comes from the transaction's own status: {a}")
                    except Shape as e:
                        ok_ans[x] = False
                        c.fact(False, "answer", W, str(e))
                if ok_ans[x]:
                    said = s.a[0]
            if any(x.op == "str" and "404" in x.a[0] for x in v.a if isinstance(x, T)) or (v.op == "b" and any(x.op == "str" and "404" in x.a[0] for y in v.a if y.op == "call" for x in y.a[2])):
                miss = True
        if name == "Confirmed":
            ok = said == "success"
        elif name == "Broadcasted":
            ok = said == "pending" or (said is None and miss)
        else:
            ok = said in GONE
        k = (name, said, miss)
        if k in seen:
            continue
        seen.add(k)
        c.fact(ok, f"stacks:{name}:{said}:{miss}", W, f"a transaction is reported {name} where the node says {said!r}" + (" (404)" if miss else ""))
    for n in ("Confirmed", "Broadcasted", "Rejected"):
        c.fact(any(k[0] == n for k in seen), f"reaches:{n}", W, f"{n} is reported for some answers")


PARTS = [bitcoin, stacks]
