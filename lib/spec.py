"""Independent statements of the documented layouts, as terms over the public data types."""
from fw import *

ADDR = "stacks_core::address::StacksAddress"
AVER = "stacks_core::address::AddressVersion"
PRIN = "stacks_core::utils::PrincipalData"
BLOCKID = "stacks_core::BlockId"
UINT = "stacks_core::uint::Uint"
NET = "bitcoin::network::constants::Network"
AMOUNT = "bitcoin::util::amount::Amount"
RSIG = "secp256k1::ecdsa::recovery::RecoverableSignature"
SCRIPT = "bitcoin::blockdata::script::Script"
CODEC = "stacks_core::codec::Codec"
OP_RETURN = 0x6A

VERSIONS = {"MainnetSingleSig": 22, "MainnetMultiSig": 20, "TestnetSingleSig": 26, "TestnetMultiSig": 21}
OPCODES = {"Deposit": 60, "WithdrawalRequest": 62, "WithdrawalFulfillment": 33, "WalletHandoff": 72}
MAGIC = {"Bitcoin": b"X2", "Testnet": b"T2", "Signet": b"id", "Regtest": b"id"}


def variants(c, path):
    a = c.prog.adts.get(path)
    if a is None:
        raise Missing(f"type {path}")
    return {v["n"]: i for i, v in enumerate(a["v"])}


def adtpath(c, *suffixes):
    """path of the type whose path ends in one of the given names"""
    for s in suffixes:
        r = [p for p in c.prog.adts if p == s or p.endswith("::" + s)]
        if len(r) == 1:
            return r[0]
    raise Missing(f"type {suffixes[0]}")


def magic(c, net):
    vs = variants(c, net_path(c))
    return case_on(engine.ENG.discr(net, ("adt", net_path(c), ())), {c.prog.variant_discr(net_path(c), i): bytes_(MAGIC[n]) for n, i in vs.items()})


def net_path(c):
    r = [p for p in c.prog.adts if p.endswith("::Network") and p.startswith("bitcoin::")]
    if len(r) != 1:
        raise Missing("bitcoin Network")
    return r[0]


def be(n, x):
    return models.ibytes("be", n, x)


def address(c, a):
    """version byte, 20 byte hash"""
    v = c.bytype(a, AVER)
    h = [f for f in range(2) if engine.ENG.proj(a, ("f", f)) is not v]
    hash_ = c.core_of(engine.ENG.proj(a, ("f", h[0])))
    return cat([one(engine.ENG.discr(v, ("adt", AVER, ()))), mk("spr", hash_)])


def principal(c, p):
    """5 address | 6 address length name"""
    t = ("adt", PRIN, ())
    d = engine.ENG.discr(p, t)
    vs = variants(c, PRIN)
    std, con = vs["Standard"], vs["Contract"]
    s = mkas(p, std)
    k = mkas(p, con)
    sp = c.bytype(engine.ENG.proj(s, ("f", 0)), ADDR)
    f = [engine.ENG.proj(k, ("f", i)) for i in range(2)]
    kp = c.bytype(f[0], ADDR)
    name = c.core_of(f[1])
    a = cat([one(I(5)), mk("spr", address(c, sp))])
    b = cat([one(I(6)), mk("spr", address(c, kp)), one(engine.ENG.intcast(ln(name), "usize", "u8")), mk("spr", models.asbytes(name))])
    return case_on(d, {c.prog.variant_discr(PRIN, std): a, c.prog.variant_discr(PRIN, con): b})


def mkas(p, v):
    return engine.ENG.proj(p, ("v", v))


def limbs(c, x, n=4):
    """the 64 bit limbs of an integer, most significant first, big endian"""
    a = c.core_of(x)
    return cat([mk("spr", be(8, nth(a, I(n - 1 - i)))) for i in range(n)])


def signature(c, s):
    """recovery id byte, 64 byte compact signature"""
    sc = settype(mk("call", "secp256k1::ecdsa::recovery::RecoverableSignature::serialize_compact", None, (s,)), None)
    return sc
