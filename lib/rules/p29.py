"""Path tables of the asset contract: every token effect on a path whose effects stay, and the result of every
read-only function."""
from fw import *
from contracts import *
import contracts

SCOPE = None
BASE = contracts.BASE
LEVEL = "other"
RULE = "token effects: ft-transfer of the arguments only where tx-sender or contract-caller equals the sender argument, ft-mint and ft-burn only in mint and burn, no other asset effect; each getter returns exactly the stored value asked for"
ASSUME = ["Clarity rolls back every effect of a public function that returns an error"]


def holder(c):
    for con in assets(c):
        n = Names(c, con)
        f = need(con, "transfer", "public", 4)
        amount, sender, to, memo = [("arg", i) for i in range(4)]
        mine = [eq(sender, ("kw", "tx-sender")), eq(sender, ("kw", "contract-caller"))]
        token = ("ft-transfer", n.token, amount, sender, to)
        w = where(con, "transfer")
        for p in table(c, con, "transfer"):
            if committed(p):
                c.fact(any(l in p.lits for l in mine), f"{con.path}:transfer:holder", w, f"transfer succeeds although neither the sender of the transaction nor the caller holds the tokens: {shown(p.lits)}")
                c.fact(state_effects(p) == [token], f"{con.path}:transfer:effect", w, f"transfer does not just move the amount from the sender to the recipient: {shown(state_effects(p))}")
                c.fact(p.val == ("ok", TRUE), f"{con.path}:transfer:result", w, f"transfer returns {shown(p.val)}")
                if ("some?", memo) in p.lits:
                    c.fact(("print", ("val", memo)) in p.eff, f"{con.path}:transfer:memo", w, "the memo is not announced")
            else:
                no = all(neg(l) in p.lits for l in mine) or neg(("ok?", token)) in p.lits
                c.fact(no, f"{con.path}:transfer:can", w, f"a holder's transfer that the token allows is refused: {shown(p.lits)}")


def others(c):
    for con in assets(c):
        n = Names(c, con)
        c.fact(set(con.fts) == {n.token[1]}, f"{con.path}:tokens", con.path, f"the contract defines other tokens than the one it reports: {sorted(con.fts)}")
        cap = con.fts.get(n.token[1])
        c.fact(cap is not None and Eval(con).atom(cap, {}, St()) == ("num", 21 * 10 ** 14), f"{con.path}:cap", con.path, "the supply is not limited to 21 million bitcoin in satoshis")
        for f in con.public():
            for p in table(c, con, f.name):
                if not committed(p):
                    continue
                for e in state_effects(p):
                    if e[0].startswith(("ft-", "nft-", "stx-")):
                        ok = (e[0], f.name) in {("ft-mint", "mint"), ("ft-burn", "burn"), ("ft-transfer", "transfer")}
                        c.fact(ok, f"{con.path}:{f.name}:{e[0]}", where(con, f.name), f"{f.name} moves, mints or burns tokens: {shown(e)}")
                    elif e[0] == "call":
                        c.fact(False, f"{con.path}:{f.name}:call", where(con, f.name), f"{f.name} calls a function of another contract that may change state: {shown(e)}")


GETTERS = [("get-name", 0, lambda n: ("ok", ("s", "sBTC"))), ("get-symbol", 0, lambda n: ("ok", ("s", "sBTC"))), ("get-decimals", 0, lambda n: ("ok", ("num", 8))),
           ("get-balance", 1, lambda n: ("ok", ("ft-get-balance", n.token, ("arg", 0)))), ("get-total-supply", 0, lambda n: ("ok", ("ft-get-supply", n.token))),
           ("get-bitcoin-wallet-public-key", 0, lambda n: ("var", n.key)), ("get-contract-owner", 0, lambda n: ("var", n.owner)),
           ("get-amount-by-btc-txid", 1, lambda n: ("opt", ("map", n.map, ("arg", 0, 32))))]


def getters(c):
    for con in assets(c):
        n = Names(c, con)
        for fn, k, want in GETTERS:
            need(con, fn, "read-only", k)
            t = table(c, con, fn)
            for p in t:
                c.fact(p.kind == "v" and p.val == want(n), f"{con.path}:{fn}", where(con, fn), f"{fn} returns {shown(p.val)} instead of {shown(want(n))}")
        need(con, "get-token-uri", "read-only", 0)
        for p in table(c, con, "get-token-uri"):
            c.fact(p.kind == "v" and p.val[0] == "ok" and p.val[1][0] == "some" and p.val[1][1][0] == "s", f"{con.path}:get-token-uri", where(con, "get-token-uri"), f"get-token-uri returns {shown(p.val)}")
        c.fact(n.owner != n.key, f"{con.path}:distinct", con.path, "the owner and the wallet key are the same variable")


PARTS = [holder, others, getters]
