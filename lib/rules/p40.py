"""The payout task is run symbolically to the transaction it hands to the node; that term is taken apart: who made the
outputs and from what, what the wallet was asked to pay, what was changed before and after signing."""
from fw import *
from rio import *
import seqs

SCOPE = "romeo"
LEVEL = "other"
RULE = "the one transaction broadcast is the wallet's, paying exactly the fulfilment's outputs, reordered before it is signed, and unchanged afterwards"
ASSUME = ["the wallet library pays every recipient it was given", "the nodes answer truthfully"]

OPAQUE = ("ProofData::from_block_and_index", "ProofData::to_values")
# calls on the builder that could move or drop the outputs asked for
DROPS = ("drain_to", "drain_wallet", "allow_shrinking", "do_not_spend_change", "add_foreign_utxo")


def idx(c, suffix, name):
    for p, a in c.prog.adts.items():
        if p.endswith(suffix) and len(a["v"]) == 1:
            ns = [f["n"] for f in a["v"][0]["f"]]
            if name in ns:
                return ns.index(name), len(ns)
    raise Shape(f"{suffix}.{name} is gone")


def okv(r):
    """what a call that succeeded gave"""
    return engine.ENG.proj(engine.ENG.proj(r, ("v", 0)), ("f", 0))


def last(r):
    return r.name.split("::")[-1]


def payout(c):
    K = Tasks(c, OPAQUE)
    t = K.run("CreateFulfillment")
    W = t.where
    info = t.vals[0]
    calls = [r for r in t.log if r.kind == "call"]
    mk_outs = [r for r in calls if r.name.endswith("withdrawal_fulfillment::create_outputs")]
    c.fact(len(mk_outs) == 1 and not mk_outs[0].loops, "outputs", W, f"the documented outputs are made once ({len(mk_outs)})")
    sends = [r for r in calls if "RpcApi::" in r.name]
    c.fact(len(sends) == 1 and last(sends[0]) == "send_raw_transaction" and not sends[0].loops, "one-broadcast", W, f"one transaction is broadcast, once: {[last(r) for r in sends]}")
    if len(mk_outs) != 1 or len(sends) != 1 or last(sends[0]) != "send_raw_transaction":
        return
    request_outputs(c, W, t, info, mk_outs[0])
    outs = okv(mk_outs[0].res)
    fin = signed(c, W, t, calls, sends[0], outs)
    if fin is not None:
        built(c, W, t, calls, fin, outs)


def request_outputs(c, W, t, info, r):
    tip, net, rcp, amt = r.args
    c.fact(net is c.fld(t.cfg, "bitcoin_network") or is_config_field(c, net, "bitcoin_network") or (is_call(net, "network") and is_config_field(c, net.a[2][0], "bitcoin_credentials")), "network", W, f"on the configured network: {show(net)[:80]}")
    c.fact(rcp is c.fld(info, "recipient"), "recipient", W, f"paid to the withdrawal's own recipient: {show(rcp)[:80]}")
    c.fact(amt is c.fld(info, "amount"), "amount", W, f"the withdrawal's own amount: {show(amt)[:80]}")
    n = 0
    for when, g, x in by_key(c, t, tip):
        ok = is_call(x, "BlockId::new")
        c.fact(ok, "tip", W, f"({when}) the chain tip is a Stacks block id: {show(x)[:80]}")
        if not ok:
            continue
        h = x.a[2][0]
        for _ in range(8):
            h = unwrap(h)
            if h.op == "call" and h.a[0].split("::")[-1] in ("deserialize", "decode", "replace", "strip_prefix", "trim_start_matches", "from_hex"):
                h = h.a[2][0]
            elif h.op == "cat" and len(h.a) == 1 and h.a[0].op == "spr":
                h = h.a[0].a[0]
            else:
                break
        try:
            a = answer(h)
        except Shape as e:
            c.fact(False, "tip-answer", W, f"({when}) {e}")
            continue
        n += 1
        c.fact(a.req.method == "get" and path_is(a.req, "/extended/v1/block/by_burn_block_height/", disp(c.fld(info, "block_height"))), "tip-block", W, f"({when}) the Stacks block at the Bitcoin block of the withdrawal is asked for: {a.req}")
        c.fact(a.keys == ("hash",), "tip-hash", W, f"({when}) the block's hash is taken: {'.'.join(map(str, a.keys))}")
    c.fact(n > 0, "tip-known", W, "the chain tip is the node's answer")


def signed(c, W, t, calls, send, outs):
    tx = send.args[1]
    if is_call(tx, "clone"):
        tx = tx.a[2][0]
    ok = is_call(tx, "extract_tx")
    c.fact(ok, "extracted", W, f"what is broadcast is the transaction of the signed proposal: {show(tx)[:80]}")
    if not ok:
        return None
    base, muts = root(tx.a[2][0])
    c.fact(len(muts) >= 1 and is_call(muts[0], "Wallet::sign"), "signed-last", W, f"the proposal is signed, and not changed after that: {[m.a[0].split('::')[-1] for m in muts]}")
    c.fact(len(muts) == 1, "signed-once", W, f"nothing but the signing changes the proposal: {[m.a[0].split('::')[-1] for m in muts]}")
    if len(muts) != 1:
        return None
    wallet = muts[0].a[2][0]
    ok_sign = is_path_ok(c, t, send, muts[0])
    c.fact(ok_sign, "sign-checked", W, "a proposal whose signing failed is not broadcast")
    c.fact(is_wallet(c, wallet, t), "own-wallet", W, f"signed by the relayer's wallet: {show(wallet)[:80]}")
    fins = [r for r in calls if r.name.endswith("TxBuilder::finish")]
    c.fact(len(fins) == 1, "one-proposal", W, f"{len(fins)} proposals are made")
    if len(fins) != 1:
        return None
    # a proposal with a part replaced is a struct term: every part but the outputs is the wallet's own
    psbt0 = engine.ENG.proj(okv(fins[0].res), ("f", 0))
    iu, nu = idx(c, "psbt::PartiallySignedTransaction", "unsigned_tx")
    io, no = idx(c, "transaction::Transaction", "output")
    for i in range(nu):
        if i != iu:
            c.fact(norm(engine.ENG.proj(base, ("f", i))) is norm(engine.ENG.proj(psbt0, ("f", i))), f"kept:{i}", W, f"part {i} of the proposal is the wallet's own")
    u, u0 = engine.ENG.proj(base, ("f", iu)), engine.ENG.proj(psbt0, ("f", iu))
    for i in range(no):
        if i != io:
            c.fact(norm(engine.ENG.proj(u, ("f", i))) is norm(engine.ENG.proj(u0, ("f", i))), f"kept-tx:{i}", W, f"part {i} of the transaction is the wallet's own")
    o, o0 = engine.ENG.proj(u, ("f", io)), engine.ENG.proj(u0, ("f", io))
    c.fact(is_call(o, "reorder_outputs") and norm(o.a[2][0]) is norm(o0) and aslist(o.a[2][1]) is aslist(outs), "reordered", W, f"the wallet's outputs are put in the documented order before signing: {show(o)[:100]}")
    return fins[0]


def is_path_ok(c, t, send, call):
    """on the way to the broadcast the call is known to have succeeded"""
    return And(send.guard, is_label(engine.ENG.discr(call), 1)) is FALSE


def aslist(x):
    x = norm(x)
    while x.op == "call" and x.a[0].split("::")[-1] in ("to_vec", "into", "clone", "into_iter", "collect"):
        x = x.a[2][0]
    return x


def is_wallet(c, w, t):
    lock = unwrap_std(w)
    return lock is not None and lock.op == "fld" and any(lock.a[0] is s for s in (t.syms.get("bitcoin"),))


def unwrap_std(w):
    """what was locked"""
    for x in subterms(w):
        if x.op == "call" and x.a[0].endswith("Mutex::lock"):
            return x.a[2][0]
    return None


def built(c, W, t, calls, fin, outs):
    base, muts = root(fin.args[0])
    muts = list(reversed(muts))
    ok = is_call(base, "Wallet::build_tx")
    c.fact(ok, "builder", W, f"the wallet's own builder: {show(base)[:80]}")
    if not ok:
        return
    c.fact(is_wallet(c, base.a[2][0], t), "builder-wallet", W, "the relayer's wallet builds the transaction")
    names = [m.a[0].split("::")[-1] for m in muts]
    c.fact(not [n for n in names if n in DROPS], "builder-calls", W, f"nothing takes away what was asked for: {names}")
    size = 2
    adds = []
    for m in muts:
        if m.a[0].endswith("add_recipient"):
            adds.append((m.a[2][1], m.a[2][2]))
        elif m.a[0].endswith("set_recipients"):
            xs = aslist(m.a[2][1])
            whole = xs is aslist(outs)
            k = ln(xs)
            k = size if whole else k.a[0] if k.op == "int" else 0
            adds = [tuple(engine.ENG.proj(nthof(outs if whole else xs, i), ("f", j)) for j in (0, 1)) for i in range(k)]
    ok = len(adds) == size
    c.fact(ok, "all", W, f"each of the {size} documented outputs is asked for once: {len(adds)}")
    for i, m in enumerate(adds[:size]):
        e = nthof(outs, i)
        for j, what in ((1, "script"), (2, "amount")):
            x, y = norm(m[j - 1]), norm(engine.ENG.proj(e, ("f", j - 1)))
            c.fact(x is y, f"output:{i}:{what}", W, f"output {i} has the documented {what}: {show(x)[-60:]}")
    syncs = [r for r in calls if r.name.endswith("Wallet::sync")]
    bt = [r for r in calls if r.name.endswith("Wallet::build_tx")]
    c.fact(bool(syncs) and bool(bt) and syncs[0].idx < bt[0].idx and is_wallet(c, syncs[0].args[0], t) and is_path_ok(c, t, fin, syncs[0].res), "synced", W, "the wallet is synchronised before it builds the transaction")


def nthof(outs, i):
    return seqs.nth(outs, I(i))


PARTS = [payout]
