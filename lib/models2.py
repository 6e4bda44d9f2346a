"""Library facts about hashing, hex, scripts, addresses and map entries."""
from terms import *
import terms
from seqs import *
import seqs
import engine
from engine import *
import models
from models import *
from models import M, TABLE, _opq

U8T = ("num", "u8")
BYTES = ("slice", U8T)


def as_bytes_of(e, v, ty):
    """v.as_ref() as bytes, through a local impl when there is one"""
    v = e.load(v) if v.op == "ptr" else v
    t = unref(ty)
    im = None
    if t is not None and t[0] == "adt" and e.prog.adts.get(t[1], {}).get("local"):
        im = e.resolve("core::convert::AsRef", "as_ref", (t, ("slice", U8T)))
    if im is not None:
        r = e.inline(im[0], im[1], [v], [ty], None)
        return e.deep(r)
    if is_strty(t):
        return asbytes(v)
    return e.deep(v)


# ---------------------------------------------------------------- digests
LENS = {"sha256": 32, "ripemd160": 20, "sha512_256": 32, "sha512": 64, "sha1": 20, "sha224": 28, "sha384": 48}


def algo_of(t):
    s = str(t)
    for k, n in (("OidSha256", "sha256"), ("Ripemd160Core", "ripemd160"), ("OidSha512_256", "sha512_256"), ("OidSha512'", "sha512"), ("OidSha384", "sha384"), ("OidSha224", "sha224"), ("Sha1Core", "sha1")):
        if k in s:
            return n
    return s


def hash_(algo, b):
    def f(x):
        if x is BOT:
            return x
        r = mk("hash", algo, x)
        n = LENS.get(algo)
        if n:
            settype(r, ("array", U8T, ("cval", n)))
        return r
    return apply(("hash", algo), f, b)


BUILD["hash"] = hash_


def hasher_type(c):
    return c.subs[0] if c.subs else c.rt


@M("Digest::digest")
def m_digest(e, c):
    return hash_(algo_of(hasher_type(c)), as_bytes_of(e, c.av[0], c.at[0]))


@M("Digest::new")
def m_dnew(e, c):
    return adt("DIGEST", 0, S(algo_of(hasher_type(c))), EMPTY)


@M("Digest::new_with_prefix")
def m_dnewp(e, c):
    return adt("DIGEST", 0, S(algo_of(hasher_type(c))), as_bytes_of(e, c.av[0], c.at[0]))


def _dupd(v, b):
    return apply(None, lambda x: adt("DIGEST", 0, x.a[2], cat([mk("spr", x.a[3]), mk("spr", b)])) if x.op == "adt" and x.a[0] == "DIGEST" else BOT, v)


@M("Digest::update", "Update::update")
def m_dupdate(e, c):
    p = c.av[0]
    v = e.load(p)
    if any(x.op != "adt" or x.a[0] != "DIGEST" for x in leaves(v)):
        return None
    e.store(p, _dupd(v, as_bytes_of(e, c.av[1], c.at[1])))
    return UNIT


@M("Digest::chain_update", "Update::chain")
def m_dchain(e, c):
    v = c.val(0)
    if any(x.op != "adt" or x.a[0] != "DIGEST" for x in leaves(v)):
        return None
    return _dupd(v, as_bytes_of(e, c.av[1], c.at[1]))


@M("Digest::finalize")
def m_dfin(e, c):
    v = c.val(0)
    if any(x.op != "adt" or x.a[0] != "DIGEST" for x in leaves(v)):
        return None
    return apply(None, lambda x: hash_(x.a[2].a[0], x.a[3]), v)


# ---------------------------------------------------------------- hex
@M("hex::encode")
def m_hexenc(e, c):
    b = as_bytes_of(e, c.av[0], c.at[0])

    def f(x):
        if x is BOT:
            return x
        return settype(mk("hex", x), ("adt", "alloc::string::String", ()))
    return apply("hex", f, b)


BUILD["hex"] = lambda x: apply("hex", lambda y: settype(mk("hex", y), ("adt", "alloc::string::String", ())) if y is not BOT else y, x)


@M("hex::decode")
def m_hexdec(e, c):
    b = as_bytes_of(e, c.av[0], c.at[0])

    def f(x):
        if x is BOT:
            return x
        if x.op == "asbytes":
            x = x.a[0]
        if x.op == "hex":
            return Ok(x.a[0])
        if x.op == "cat" and all(p.op == "one" and p.a[0].op == "int" for p in x.a):
            try:
                return Ok(bytes_(bytes.fromhex(bytes(p.a[0].a[0] for p in x.a).decode())))
            except ValueError:
                pass
        return settype(mk("call", "hex::decode", None, (x,)), c.rt)
    return apply(None, f, b)


_oldlen = seqs._len


# ---------------------------------------------------------------- secp256k1 messages
@M("Message::from_slice", "Message::from_digest_slice")
def m_msg(e, c):
    v = c.val(0)
    g = eq(ln(v), I(32))
    ok = Ok(settype(mk("msg", v), c.rt[2][0] if c.rt and c.rt[0] == "adt" and c.rt[2] else None))
    return select([(g, ok), (Not(g), Err(mk("kst", "InvalidMessage")))])


# ---------------------------------------------------------------- scripts
BUILDER = "bitcoin::blockdata::script::Builder"


@M("Builder::new")
def m_bnew(e, c):
    if not tykey(c.rt).endswith("script::Builder"):
        return None
    return adt("BUILDER", 0, EMPTY)


def isb(v):
    return all(x is BOT or x.op == "adt" and x.a[0] == "BUILDER" for x in leaves(v))


def badd(e, c, item):
    v = c.val(0)
    if not isb(v):
        return None
    return apply(None, lambda x: x if x is BOT else adt("BUILDER", 0, cat([mk("spr", x.a[2]), one(item)])), v)


@M("Builder::push_opcode")
def m_bop(e, c):
    v = c.val(1)
    # the opcode type is a struct around its code
    return badd(e, c, adt("SOP", 0, e.proj(v, ("f", 0))))


@M("Builder::push_slice")
def m_bslice(e, c):
    return badd(e, c, adt("SPUSH", 0, as_bytes_of(e, c.av[1], c.at[1])))


@M("Builder::push_int")
def m_bint(e, c):
    return badd(e, c, adt("SINT", 0, c.val(1)))


@M("Builder::push_x_only_key")
def m_bxk(e, c):
    v = c.val(1)
    return badd(e, c, adt("SPUSH", 0, settype(mk("call", "secp256k1::key::XOnlyPublicKey::serialize", None, (v,)), ("array", U8T, ("cval", 32)))))


@M("Builder::push_key")
def m_bkey(e, c):
    return badd(e, c, adt("SKEY", 0, c.val(1)))


@M("Builder::push_verify")
def m_bver(e, c):
    return badd(e, c, adt("SVERIFY", 0))


@M("Script::new_op_return")
def m_new_op_return(e, c):
    return script(cat([one(adt("SOP", 0, I(106))), one(adt("SPUSH", 0, as_bytes_of(e, c.av[0], c.at[0])))]), c.rt)


@M("Builder::into_script")
def m_binto(e, c):
    v = c.val(0)
    if not isb(v):
        return None
    return apply(None, lambda x: x if x is BOT else script(x.a[2], c.rt), v)


def script(items, t=None):
    r = mk("script", items)
    if t is not None:
        settype(r, t)
    return r


BUILD["script"] = lambda items: script(items)


@M("Script::instructions", "Script::instructions_minimal")
def m_instr(e, c):
    """the instructions of a script made with the builder out of opcodes above the push range and data of two bytes or more"""
    v = c.val(0)
    if not (v.op == "script" and c.name.endswith("::instructions")):
        return None
    its = short_list(v.a[0])
    if its is None:
        return None
    out = []
    cands = [p for p in e.prog.adts if p.endswith("blockdata::script::Instruction")]
    if len(cands) != 1:
        return None
    ip = cands[0]
    vs = {x["n"]: i for i, x in enumerate(e.prog.adts[ip]["v"])}
    oa = [p for p in e.prog.adts if p.endswith("blockdata::opcodes::All")]
    for x in its:
        if x.a[0] == "SOP" and x.a[2].op == "int" and x.a[2].a[0] > 0x60 and len(oa) == 1:
            out.append(Ok(adt(ip, vs["Op"], adt(oa[0], 0, x.a[2]))))
        elif x.a[0] == "SPUSH" and lt(I(1), ln(x.a[2])) is TRUE:
            out.append(Ok(adt(ip, vs["PushBytes"], x.a[2])))
        else:
            return None
    return lst(out)


@M("Address::from_script")
def m_addr_from_script(e, c):
    # reading the script of an address of the same network gives the address back
    s = c.val(0)

    def f(s):
        if _opq(s, "Address::script_pubkey"):
            return Ok(s.a[2][0])
        return settype(mk("call", c.name, None, (s, c.val(1))), c.rt)
    return apply(None, f, s)


# ---------------------------------------------------------------- map entries
@M("HashMap::entry", "BTreeMap::entry")
def m_entry(e, c):
    p = c.av[0]
    if p.op != "ptr":
        return None
    return adt("ENTRY", 0, p, e.deep(c.av[1]))


def entry_fill(e, c, mkv):
    v = c.av[0]
    if v.op == "ptr":
        v = e.load(v)
    if v.op != "adt" or v.a[0] != "ENTRY":
        return None
    p, k = v.a[2], v.a[3]
    m = e.load(p)
    o = map_get(e, m, k)
    t = unref(c.rt)
    pr = is_label(e.discr(o, ("adt", OPT, (t,))), 1)
    x = gsel(pr, e.payload(o, 1), mkv()) if pr is not TRUE else e.payload(o, 1)
    e.store(p, mapupd(m, k, x))
    q = mk("ptr", p.a[0], p.a[1] + (("key", k),))
    return q


def mapupd(m, k, x):
    def f(m):
        if m is BOT:
            return m
        if m.op == "mapupd" and m.a[1] is k:
            return mapupd(m.a[0], k, x)
        return mk("mapupd", m, k, x)
    return apply(None, f, m)


BUILD["mapupd"] = mapupd


@M("Entry::or_default")
def m_or_default(e, c):
    return entry_fill(e, c, lambda: default_of(e, unref(c.rt)))


@M("Entry::or_insert")
def m_or_insert(e, c):
    return entry_fill(e, c, lambda: e.deep(c.av[1]))


@M("Entry::or_insert_with")
def m_or_insert_with(e, c):
    return entry_fill(e, c, lambda: e.deep(e.call_value(c.av[1], [])))


@M("HashMap::get_mut", "BTreeMap::get_mut")
def m_get_mut(e, c):
    p = c.av[0]
    if p.op != "ptr":
        return None
    m = e.load(p)
    k = e.deep(c.val(1))
    o = map_get(e, m, k, c.rt)
    g = is_label(e.discr(o, ("adt", OPT, (None,))), 1)
    return select([(g, Some(mk("ptr", p.a[0], p.a[1] + (("key", k),)))), (Not(g), NONE)])


def map_get2(e, m, k, rt=None):
    if m.op == "mapupd":
        g = eq(m.a[1], k)
        return select([(g, Some(m.a[2])), (Not(g), models.map_get(e, m.a[0], k, rt))])
    return _map_get(e, m, k, rt)


_map_get = models.map_get


def map_get(e, m, k, rt=None):
    if m.op == "g":
        return apply(None, lambda x: map_get(e, x, k, rt), m)
    return map_get2(e, m, k, rt)


models.map_get = map_get

_proj = engine.Engine.proj


def proj(self, v, x, ty=None):
    if x[0] == "key" and v.op not in ("g", "ptr") and v is not BOT:
        return self.payload(map_get(self, v, x[1]), 1)
    return _proj(self, v, x, ty)


engine.Engine.proj = proj

_upd_path = engine.Engine.upd_path


def upd_path(self, v, path, val):
    if path and path[0][0] == "key" and v.op not in ("uninit", "g", "ptr"):
        k = path[0][1]
        return mapupd(v, k, self.upd_path(self.proj(v, path[0]), path[1:], val))
    return _upd_path(self, v, path, val)


engine.Engine.upd_path = upd_path


# ---------------------------------------------------------------- sorting
def sortk(e, kind, s, keys):
    def f(s, keys):
        if s is BOT or keys is BOT:
            return BOT
        r = mk("sortk", kind, s, keys)
        t = tyof(s)
        if t is not None:
            settype(r, t)
        return r
    return apply(None, f, s, keys)


BUILD["sortk"] = lambda k, s, q: sortk(None, k, s, q)


@M("slice::sort_by_key", "slice::sort_by_cached_key", "slice::sort_unstable_by_key")
def m_sortk(e, c):
    p = c.av[0]
    if p.op != "ptr":
        return None
    s = e.deep(e.load(p))
    keys = build_seq(e, s, lambda x: lst([e.deep(e.call_value(c.av[1], [x]))]))
    e.store(p, sortk(e, "unstable" if "unstable" in c.name else "stable", s, keys))
    return UNIT


@M("slice::sort_by", "slice::sort_unstable_by")
def m_sortby(e, c):
    """a comparison which orders two elements by the same key of each is a sort by that key"""
    p = c.av[0]
    if p.op != "ptr":
        return None
    s = e.deep(e.load(p))
    t = c.ty(0)
    while t is not None and t[0] == "ref":
        t = t[2]
    a, b = mk("sym", "$left", None), mk("sym", "$right", None)
    if t is not None and t[0] in ("slice", "array"):
        settype(a, t[1])
        settype(b, t[1])
    r = e.deep(e.call_value(c.av[1], [a, b]))
    for x in list(subterms(r)):
        if x.op == "lt" and has(x.a[0], a) and not has(x.a[0], b):
            k = x.a[0]
            if r is e.cmp3(k, subst(k, {a: b})):
                keys = build_seq(e, s, lambda y: lst([subst(k, {a: y})]))
                e.store(p, sortk(e, "unstable" if "unstable" in c.name else "stable", s, keys))
                return UNIT
    return None


@M("slice::sort", "slice::sort_unstable")
def m_sort(e, c):
    p = c.av[0]
    if p.op != "ptr":
        return None
    s = e.deep(e.load(p))
    e.store(p, sortk(e, "unstable" if "unstable" in c.name else "stable", s, s))
    return UNIT


@M("Secp256k1::signing_only", "Secp256k1::verification_only", "Secp256k1::gen_new")
def m_secp_ctx(e, c):
    return settype(mk("call", "secp256k1::Secp256k1::new", None, ()), c.rt)


@M("Secp256k1::recover_ecdsa", "RecoverableSignature::recover")
def m_recover(e, c):
    # recovering from a signature over the same message gives the public key of the signer
    m, s = (c.val(1), c.val(2)) if "Secp256k1" in c.name else (c.val(1), c.val(0))
    if _opq(s, "::sign_ecdsa_recoverable") and s.a[2][1] is m:
        return Ok(settype(mk("pubkey", s.a[2][2]), ("adt", "secp256k1::key::PublicKey", ())))
    return None


# ---------------------------------------------------------------- witnesses, transaction parts
def witness(items):
    return adt("WITNESS", 0, items)


@M("Witness::new")
def m_wnew(e, c):
    return witness(EMPTY)


@M("Witness::from_vec")
def m_wfrom(e, c):
    return witness(c.val(0)) if tykey(c.rt).endswith("::Witness") else None


def iswit(v):
    return all(x is BOT or x.op == "adt" and x.a[0] == "WITNESS" for x in leaves(v))


def script_bytes(e, v):
    if v.op == "conv" and v.a[0].endswith("::Script"):
        return v.a[1]
    return settype(mk("call", "bitcoin::blockdata::script::Script::as_bytes", None, (e.deep(v),)), BYTES)


@M("Witness::push")
def m_wpush(e, c):
    p = c.av[0]
    v = c.val(0) if p.op != "ptr" else e.deep(e.load(p))
    if not iswit(v):
        return None
    x = c.av[1]
    x = e.load(x) if x.op == "ptr" else x
    x = script_bytes(e, x) if tykey(c.at[1]).endswith("::Script") else as_bytes_of(e, c.av[1], c.at[1])
    return models.modify(e, c, lambda w: w if w is BOT else witness(cat([mk("spr", w.a[2]), one(x)])))


@M("Script::new")
def m_snew(e, c):
    return script(EMPTY, c.rt) if tykey(c.rt).endswith("::Script") else None


def btc_default(e, t):
    """the default values of the transaction types of the Bitcoin crate"""
    if t is None or t[0] != "adt":
        return None
    n = t[1].split("::")[-1]
    if not t[1].startswith("bitcoin::"):
        return None
    if n == "Witness":
        return witness(EMPTY)
    if n == "Script":
        return script(EMPTY, t)
    if n == "Sequence":
        return adt(t[1], 0, I(0xffffffff))
    if n == "TxIn":
        fs = e.prog.adts[t[1]]["v"][0]["f"]
        d = {"script_sig": script(EMPTY), "sequence": adt("bitcoin::blockdata::transaction::Sequence", 0, I(0xffffffff)), "witness": witness(EMPTY)}
        return adt(t[1], 0, *[d.get(f["n"]) or mk("call", "Default::default", None, (S(f["n"]),)) for f in fs])
    return None


@M("raw::from_mut", "raw::from_ref")
def m_alone(e, c):
    """one value as a sequence of one"""
    p = c.av[0]
    if p.op == "ptr":
        return mk("ptr", p.a[0], p.a[1] + (("alone",),))
    return lst([p])
