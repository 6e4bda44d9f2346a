"""Abstract interpretation of the parsers of on-chain operations: every field of the parsed
operation is expressed as a term over the transaction and compared with the place it is documented
to come from (output index, value, script, bytes of the data push)."""
from oplib import *

LEVEL = "other"
RULE = "every field of the parsed operation is the documented function of the transaction"
ASSUME = ["the readers of the parts are the ones P02 checks", "Script::instructions and Address::from_script behave as documented by the bitcoin crate"]


def deposit(c):
    p = Parse(c, "deposit")
    s, v, G, w = p.s, p.s.okval, p.s.ok, p.s.where()
    c.same(G, c.fld(v, "amount"), p.value(1), "deposit:amount", w, "the amount is not the value of the second output")
    c.same(G, c.fld(v, "sbtc_wallet_address"), p.address(1)[1], "deposit:wallet", w, "the wallet is not the address of the second output")
    c.same(G, c.bytype(v, spec.net_path(c)), p.net, "deposit:network", w, "the network is not the one asked for")
    _, r = p.decode(3, ("adt", spec.PRIN, ()), G)
    c.same(G, c.bytype(v, spec.PRIN), r, "deposit:recipient", w, "the recipient is not the principal in the data after the opcode")


def withdrawal(c):
    p = Parse(c, "withdrawal request")
    s, v, G, w = p.s, p.s.okval, p.s.ok, p.s.where()
    _, a = p.decode(3, ("num", "u64"), G)
    c.same(G, c.fld(v, "amount"), a, "withdrawal:amount", w, "the amount is not the one in the data")
    c.same(G, a, models.fromb("be", 8, slice_(p.d, I(3), I(11)), "u64"), "withdrawal:amount-bytes", w, "the amount is not read from the eight bytes after the opcode")
    _, sg = p.decode(11, ("adt", spec.RSIG, ()), G)
    c.same(G, c.bytype(v, spec.RSIG), sg, "withdrawal:signature", w, "the signature is not the one in the data")
    c.same(G, c.fld(v, "payee_bitcoin_address"), p.address(1)[1], "withdrawal:payee", w, "the payee is not the address of the second output")
    c.same(G, c.fld(v, "fulfillment_amount"), p.value(2), "withdrawal:fee", w, "the fulfillment amount is not the value of the third output")
    c.same(G, c.fld(v, "sbtc_wallet"), p.address(2)[1], "withdrawal:wallet", w, "the wallet is not the address of the third output")


PARTS = [deposit, withdrawal]
