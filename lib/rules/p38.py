"""The configuration read at the start is a struct term over the file's fields; each part must come from the field of
its own name. The wallet, the address deposits are recognised by and the credentials are terms over that configuration."""
from fw import *
from rio import *

SCOPE = "romeo"
LEVEL = "other"
RULE = "every part of the configuration is the file's field of that name; wallet and recognised address are of the one taproot key of its credentials"
ASSUME = ["the JSON library fills each field of the file's structure from the key of that name"]

CFG = "romeo::config::Config"


def body(c, path, *has):
    """the functions at a path (module::name, whatever impl block they are in)"""
    mod, name = path.rsplit("::", 1)
    return [b for b in c.prog.bodies if b.startswith(mod + "::") and b.split("::")[-1] == name]


def nm(c, ty, i):
    return c.prog.adts[ty]["v"][0]["f"][i]["n"]


def fieldof(c, x):
    """name of the file field that x is"""
    if x.op != "fld" or not isinstance(x.a[1], int):
        return None
    src = unwrap(x.a[0])
    if src.op == "call" and src.a[0].split("::")[-1] in ("from_reader", "from_str", "from_slice") and any(y.op == "sym" for y in subterms(src)):
        return nm(c, FILE[0], x.a[1])
    return None


FILE = []


def parsed(x):
    x = unwrap(x)
    if x.op == "call" and x.a[0].endswith("Url::parse"):
        return x.a[2][0]
    if x.op == "call" and x.a[0].split("::")[-1] in ("from_str", "parse", "try_from", "from", "into"):
        return x.a[2][0]
    if x.op == "conv":
        return x.a[-1]
    return x


def plain(x):
    for _ in range(6):
        y = parsed(x)
        if y is x:
            return x
        x = y
    return x


def reading(c):
    files = [p for p in c.prog.adts if p.startswith("romeo::") and p.split("::")[-1] == "ConfigFile"]
    bs = [b for b in body(c, "romeo::config::from_path") if CFG in str(c.prog.bodies[b].get("locals", [{}])[0])] or body(c, "romeo::config::from_path")
    done = 0
    for b in bs:
        s = c.run(b)
        v = s.okval
        if v is None or v is BOT or not all(x.op == "adt" and x.a[0] == CFG for x in leaves(v) if x is not BOT):
            continue
        done += 1
        FILE[:] = [p for p in c.prog.adts if p.startswith("romeo::config::") and p != CFG and any(f["n"] == "mnemonic" for vv in c.prog.adts[p]["v"] for f in vv["f"])]
        c.fact(len(FILE) == 1, "file", s.where(), f"the file has one structure: {FILE}")
        if len(FILE) != 1:
            return
        for i, f in enumerate(c.prog.adts[CFG]["v"][0]["f"]):
            part(c, s, f["n"], engine.ENG.proj(v, ("f", i)), b)
    c.fact(done >= 1, "reader", "-", f"the configuration is read by {done} function(s)")


def part(c, s, name, x, b):
    w = s.where()
    if name in ("stacks_credentials", "bitcoin_credentials"):
        x = unwrap(x)
        want = "credentials" if name == "stacks_credentials" else "bitcoin_credentials"
        ok = x.op == "call" and x.a[0].endswith("::" + want)
        c.fact(ok, f"{name}:made", w, f"{name} are the wallet's: {show(x)[:80]}")
        if not ok:
            return
        wl, net, ix = x.a[2]
        wl = unwrap(wl)
        c.fact(is_call(wl, "Wallet::new") and fieldof(c, plain(wl.a[2][0])) == "mnemonic", f"{name}:mnemonic", w, f"{name} come from the file's mnemonic")
        c.fact(fieldof(c, net) == name.split("_")[0] + "_network", f"{name}:network", w, f"{name} are for the file's {name.split('_')[0]} network: {fieldof(c, net)}")
        c.fact(ix.op == "int" and ix.a[0] == 0, f"{name}:account", w, f"{name} are those of the first account: {show(ix)[:40]}")
    elif name == "strict":
        good = True
        for lits, end in paths(x):
            known = [(v, l) for v, l in lits]
            some = [l for v, l in known if v.op == "discr" and fieldof(c, v.a[0]) == "strict"]
            val = [l for v, l in known if v.op == "b" and (lambda y: y is not None and fieldof(c, y.a[0].a[0] if y.op == "fld" else y) == "strict")(v.a[0])]
            if end is TRUE:
                good = good and some == [1] and val == [1]
            elif end is FALSE:
                good = good and (some == [0] or (some == [1] and val == [0]))
            else:
                good = good and end.op == "call" and any(fieldof(c, y) == "strict" for y in subterms(end))
        c.fact(good, "strict", w, f"strict is what the file says, and off if it says nothing: {show(x)[-100:]}")
    elif name == "state_directory":
        c.fact(x.op == "g" or x.op == "call", "state_directory", w, "the directory is worked out")
        n = 0
        for lits, end in paths(x):
            rel = [l for v, l in lits if v.op == "b" and v.a[0].op == "call" and v.a[0].a[0].endswith("is_relative") and any(fieldof(c, y) == "state_directory" for y in subterms(v.a[0]))]
            n += 1
            ends = [end]
            if rel == [0]:
                c.fact(any(fieldof(c, y) == "state_directory" for y in subterms(end)) and not is_call(end, "Path::join"), "absolute", w, f"an absolute directory is used as it is: {show(end)[:80]}")
            else:
                ok = is_call(end, "Path::join") and any(fieldof(c, y) == "state_directory" for y in subterms(end.a[2][1])) and any(is_call(y, "Path::parent") for y in subterms(end.a[2][0]))
                c.fact(ok, "relative", w, f"a relative directory is next to the file: {show(end)[:80]}")
        c.fact(n > 0, "directory", w, "")
    else:
        y = plain(x)
        c.fact(fieldof(c, y) == name, f"part:{name}", w, f"{name} is the file's {fieldof(c, y) or show(y)[:80]}")


def wallet(c):
    bs = [b for b in c.prog.bodies if b.startswith("romeo::bitcoin_client::") and b.split("::")[-1] == "new"]
    c.fact(len(bs) == 1, "client", "-", f"one bitcoin client constructor ({len(bs)})")
    for b in bs:
        s = c.run(b)
        w = s.where()
        ws = [r for r in s.log if r.kind == "call" and r.name.endswith("wallet::Wallet::new")]
        c.fact(len(ws) == 1, "one-wallet", w, f"{len(ws)} wallets are made")
        for r in ws:
            for i, what in ((0, "receiving"), (1, "change")):
                d = r.args[i]
                if d.op == "adt" and d.a[0].endswith("Option") and len(d.a) > 2:
                    d = d.a[2]
                if i == 1 and d.op == "adt" and d.a[0].endswith("Option"):
                    continue
                ok = d.op == "adt" and d.a[0].endswith("::P2TR") and key(c, d.a[2])
                c.fact(ok, f"{what}", w, f"the wallet's {what} addresses are of the relayer's own taproot key: {show(d)[:100]}")
            c.fact(is_config_field(c, r.args[2], "bitcoin_network"), "network", w, f"the wallet is on the configured network: {show(r.args[2])[:60]}")
        es = [x for r in s.log if r.kind == "call" for a in r.args for x in subterms(a) if x.op == "adt" and x.a[0].endswith("ElectrumBlockchainConfig")]
        c.fact(bool(es), "electrum", w, "the wallet has a node to follow")
        for x in es[:1]:
            u = [y for y in subterms(x) if y.op == "fld" and any(is_config_field(c, y, f) for f in ("bitcoin_node_url", "stacks_node_url", "electrum_node_url"))]
            c.fact(bool(u) and all(is_config_field(c, y, "electrum_node_url") for y in u), "electrum-url", w, "the wallet follows the configured Electrum node")


def key(c, k):
    k = unwrap(k)
    if k.op == "call" and (k.a[0].endswith("PrivateKey::from_wif") or k.a[0].endswith("FromStr::from_str") or k.a[0].endswith("str::parse")):
        t = k.a[2][0]
        while t.op == "disp" or (t.op == "cat" and len(t.a) == 1 and t.a[0].op == "spr") or is_call(t, "to_string"):
            t = t.a[0] if t.op == "disp" else t.a[0].a[0] if t.op == "cat" else t.a[2][0]
        return is_call(t, "BitcoinCredentials::wif_p2tr") and is_config_field(c, t.a[2][0], "bitcoin_credentials")
    if k.op == "call" and k.a[0].endswith("BitcoinCredentials::private_key_p2tr"):
        return is_config_field(c, k.a[2][0], "bitcoin_credentials")
    if k.op == "call" and k.a[0].endswith("PrivateKey::new"):
        y = k.a[2][0]
        return is_call(y, "BitcoinCredentials::private_key_p2tr") and is_config_field(c, y.a[2][0], "bitcoin_credentials") and any(is_config_field(c, z, "bitcoin_network") for z in subterms(k.a[2][1]))
    return False


def address(c):
    bs = body(c, "romeo::config::sbtc_wallet_address")
    c.fact(len(bs) == 1, "address-fn", "-", f"{len(bs)} functions give the wallet's address")
    for b in bs:
        s = c.run(b)
        r = s.ret
        c.fact(is_call(r, "BitcoinCredentials::address_p2tr") and is_config_field(c, r.a[2][0], "bitcoin_credentials"), "address", s.where(), f"deposits are recognised by the taproot address of the same key: {show(r)[:100]}")


PARTS = [reading, wallet, address]
