"""Models of the standard library (and a few extern) functions."""
from terms import *
import terms
from seqs import *
import seqs
import engine
from engine import *

TABLE = {}
OVERRIDE = {}


def M(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def ident(e, c):
    return c.av[0]


def vident(e, c):
    return c.val(0)


for n in ("AsRef::as_ref", "Borrow::borrow"):
    pass

for n in ("Box::new", "Arc::new", "Rc::new", "Pin::new", "Pin::new_unchecked", "Pin::as_mut", "IntoFuture::into_future", "hint::must_use", "Box::pin", "boxed::box_assume_init_into_vec_unsafe",
          "convert::identity", "Cow::into_owned", "Iterator::by_ref", "NonNull::as_ref", "Arc::clone", "Rc::clone", "ManuallyDrop::new", "Box::leak", "Iterator::fuse", "Wrapping::new", "hint::black_box",
          "BufReader::new", "BufWriter::new", "Iterator::into_iter", "Pin::get_mut", "Box::into_inner", "Vec::into_boxed_slice", "slice::into_vec", "String::into_boxed_str", "future::into_future",
          "BorrowMut::borrow_mut", "DerefMut::deref_mut", "AsMut::as_mut", "Vec::as_mut_slice", "array::as_mut_slice", "string::into_string", "MaybeUninit::assume_init", "Vec::leak"):
    TABLE[n] = ident
for n in ("Vec::as_slice", "String::as_str", "slice::to_vec", "str::to_owned", "ToOwned::to_owned", "slice::to_owned", "array::as_slice", "slice::iter", "Vec::iter", "Iterator::cloned", "Iterator::copied", "str::to_string", "String::into_boxed_str", "slice::into_iter", "Cow::Borrowed", "Vec::into_iter", "array::into_iter", "Arc::as_ref", "Box::as_ref", "str::as_str", "str::into_string", "Amount::from_sat", "Amount::to_sat", "Amount::as_sat", "String::from_str", "array::each_ref", "array::iter", "OsString::from", "PathBuf::from", "slice::as_ref", "str::to_lowercase_noop", "VecDeque::iter", "thiserror::AsDisplay", "AsDisplay::as_display", "AsDynError::as_dyn_error", "str::trim_noop", "String::clone", "Option::as_deref_noop"):
    TABLE[n] = vident


def is_strty(t):
    t = unref(t)
    return t is not None and (t[0] == "str" or t[0] == "adt" and t[1] in ("alloc::string::String",))


def is_seqty(t):
    t = unref(t)
    return t is not None and (t[0] in ("str", "slice", "array") or t[0] == "adt" and t[1] in ("alloc::string::String", "alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"))


def is_bytes(t):
    t = unref(t)
    return t is not None and (t[0] in ("slice", "array") and t[1] == ("num", "u8") or t[0] == "adt" and t[1] == "alloc::vec::Vec" and t[2][0] == ("num", "u8"))


def asbytes(v):
    def f(x):
        if x is BOT:
            return x
        if x.op == "str":
            return bytes_(x.a[0].encode())
        if x.op == "utf8":
            return x.a[0]
        if x.op == "slice":
            return slice_(asbytes(x.a[0]), x.a[1], x.a[2])
        if x.op == "cat":
            return cat([p if p.op == "one" else mk("spr", asbytes(p.a[0])) for p in x.a])
        return settype(mk("asbytes", x), ("slice", ("num", "u8")))
    return apply("asbytes", f, v)


BUILD["asbytes"] = asbytes


# ---------------------------------------------------------------- clone / eq / default / cmp
def derived(e, tp):
    b = e.prog.bodies.get(tp)
    if b is None:
        return True
    im = e.prog.impl_by_id.get(b.get("impl"))
    return im is not None and im["derived"]


def o_clone(e, c):
    if derived(e, c.tp):
        v = c.av[0]
        v = e.load(v) if v.op == "ptr" else v
        return v
    return None


def o_enum_iter(e, c):
    """strum's derived iterator: every variant in the order of declaration"""
    t = unref(c.subs[0]) if c.subs else None
    a = e.prog.adts.get(t[1]) if t is not None and t[0] == "adt" else None
    if a is None or a["kind"] != "enum" or any(v["f"] for v in a["v"]) or t[1] + "Iter" not in e.prog.adts:
        return None
    return it(lst([adt(t[1], i) for i in range(len(a["v"]))]))


OVERRIDE["IntoEnumIterator::iter"] = o_enum_iter
OVERRIDE["Clone::clone"] = o_clone
TABLE["Clone::clone"] = o_clone


def o_eq(neg):
    def f(e, c):
        if derived(e, c.tp):
            r = eq(c.val(0), c.val(1))
            return Not(r) if neg else r
        if neg:
            # PartialEq::ne default over a local eq
            im = e.resolve("core::cmp::PartialEq", "eq", c.subs)
            if im is not None:
                return Not(boolify(e.inline(im[0], im[1], c.av, c.at, c.rt)))
        return None
    return f


OVERRIDE["PartialEq::eq"] = o_eq(False)
OVERRIDE["PartialEq::ne"] = o_eq(True)


@M("intrinsics::discriminant_value", "mem::discriminant")
def m_discr(e, c):
    return e.discr(c.val(0), c.ty(0))


def ordered(c):
    t = c.ty(0)
    return t is not None and (t[0] in ("num", "char", "bool") or t[0] == "adt" and t[1].endswith("::Amount"))


@M("PartialOrd::lt")
def m_lt(e, c):
    return lt(c.val(0), c.val(1)) if ordered(c) else None


@M("PartialOrd::gt")
def m_gt(e, c):
    return lt(c.val(1), c.val(0)) if ordered(c) else None


@M("PartialOrd::le")
def m_le(e, c):
    return le(c.val(0), c.val(1)) if ordered(c) else None


@M("PartialOrd::ge")
def m_ge(e, c):
    return le(c.val(1), c.val(0)) if ordered(c) else None


@M("Ord::cmp")
def m_cmp(e, c):
    return e.cmp3(c.val(0), c.val(1)) if ordered(c) else None


@M("PartialOrd::partial_cmp")
def m_pcmp(e, c):
    return Some(e.cmp3(c.val(0), c.val(1))) if ordered(c) else None


@M("Ord::min", "cmp::min")
def m_min(e, c):
    a, b = c.val(0), c.val(1)
    l = lt(b, a)
    return select([(l, b), (Not(l), a)])


@M("Ord::max", "cmp::max")
def m_max(e, c):
    a, b = c.val(0), c.val(1)
    l = lt(a, b)
    return select([(l, b), (Not(l), a)])


@M("Default::default")
def m_default(e, c):
    t = c.rt
    if t is None:
        return None
    if t[0] == "num":
        return ZERO
    if t[0] == "bool":
        return FALSE
    if t[0] == "adt":
        if t[1] == OPT:
            return NONE
        if t[1] in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
            return EMPTY
        if t[1] == "alloc::string::String":
            return S("")
        if "HashMap" in t[1] or "BTreeMap" in t[1]:
            return mk("map", EMPTY)
    if t[0] == "array" and t[2][0] == "cval" and t[1][0] == "num":
        return rep(ZERO, I(t[2][1]))
    if t == ("tuple", ()):
        return UNIT
    import models2
    return models2.btc_default(e, t)


# ---------------------------------------------------------------- conversions
def conv(e, v, ft, tt, trait="From"):
    """value of From<ft> for tt"""
    ft2, tt2 = ft, tt
    if tt is None:
        return None
    if ft == tt:
        return v
    if ft is not None:
        f = e.prog.find_impl("core::convert::From", tt, (tt, ft))
        if f is None and ft[0] == "ref":
            f = e.prog.find_impl("core::convert::From", tt, (tt, ft))
        if f is not None:
            im, isub = f
            bid = im["items"].get("from")
            if bid in e.prog.bodies:
                return e.through(bid, isub, [v], [ft], tt, "core::convert::From", "from")
    uf, ut = unref(ft), unref(tt)
    if ut is not None and uf is not None:
        if ut[0] == "adt" and ut[1] == OPT and len(ut[2]) and unref(ut[2][0]) == uf and not (uf[0] == "adt" and uf[1] == OPT):
            return Some(v)
        if is_strty(ut) and is_strty(uf):
            return v
        if ut[0] == "array" and uf[0] == "adt" and uf[1].endswith("::GenericArray"):
            return v
        if is_bytes(ut) and is_strty(uf):
            return asbytes(v)
        if is_strty(ut) and uf[0] == "char":
            return chars_to_str([v])
        if is_seqty(ut) and is_seqty(uf) and not is_strty(ut) and not is_strty(uf):
            return v
        if ut[0] == "num" and uf[0] in ("num", "bool", "char"):
            return e.intcast(v, tname(uf), tname(ut)) if not tname(ut).startswith("f") else settype(mk("fcast", "conv", tname(ut), v), ut)
        if ut[0] == "char" and uf[0] == "num":
            return v
        if ut == uf:
            return v
        if ut[0] == "adt" and ("HashMap" in ut[1] or "BTreeMap" in ut[1]) and uf[0] == "array":
            return mk("map", v)
        if ut[0] == "adt" and ut[1].endswith("::Value") and "serde_json" in ut[1]:
            return settype(mk("conv", "json", v), ut)
    return None


def conv_or_opaque(e, v, ft, tt):
    v = e.load(v) if v.op == "ptr" else v
    r = conv(e, v, ft, tt)
    if r is None:
        v = e.deep(v)
        if v.op == "call" and v.a[0].endswith("Script::as_bytes") and tykey(tt).endswith("::Script"):
            return v.a[2][0]
        r = settype(mk("conv", tykey(tt), v), tt)
    return r


def tykey(t):
    t = unref(t)
    if t is None:
        return "?"
    if t[0] == "adt":
        return t[1]
    return str(t)


@M("From::from")
def m_from(e, c):
    return conv_or_opaque(e, c.av[0], c.subs[1] if len(c.subs) > 1 else c.at[0], c.subs[0] if c.subs and c.subs[0] is not None else c.rt)


@M("Into::into")
def m_into(e, c):
    ft = c.subs[0] if c.subs else c.at[0]
    tt = c.subs[1] if len(c.subs) > 1 else c.rt
    # a local Into impl
    return conv_or_opaque(e, c.av[0], ft, tt)


def try_conv(e, c, ft, tt):
    v = c.val(0)
    f = e.prog.find_impl("core::convert::TryFrom", tt, (tt, ft))
    if f is not None:
        im, isub = f
        bid = im["items"].get("try_from")
        if bid in e.prog.bodies:
            return e.through(bid, isub, [c.av[0]], [ft], c.rt, "core::convert::TryFrom", "try_from")
    f = e.prog.find_impl("core::convert::From", tt, (tt, ft))
    if f is not None:
        r = conv(e, v, ft, tt)
        if r is not None:
            return Ok(r)
    ut, uf = unref(tt), unref(ft)
    if ut is None or uf is None:
        return None
    if ut[0] == "num" and uf[0] == "num" and tname(ut) in RANGE and tname(uf) in RANGE:
        lo, hi = RANGE[tname(ut)]
        slo, shi = RANGE[tname(uf)]
        bad = FALSE
        if slo < lo:
            bad = Or(bad, lt(v, I(lo)))
        if shi > hi:
            bad = Or(bad, lt(I(hi), v))
        return select([(Not(bad), Ok(v)), (bad, Err(mk("kst", "TryFromIntError")))])
    if ut[0] == "array" and is_seqty(uf):
        n = ut[2]
        N = I(n[1]) if n[0] == "cval" else settype(mk("cp", n[1]), ("num", "usize"))
        g = eq(ln(v), N)
        return select([(g, Ok(v)), (Not(g), Err(v if uf[0] == "adt" else mk("kst", "TryFromSliceError")))])
    if ut[0] == "char" and uf[0] == "num":
        return None
    return None


@M("str::parse")
def m_parse(e, c):
    """s.parse::<F>() is F::from_str(s)"""
    t = c.subs[-1] if c.subs else None
    if t is None:
        return None
    v = c.val(0)
    im = e.resolve("core::str::traits::FromStr", "from_str", (t,))
    if im is not None:
        return e.through(im[0], im[1], [v], [("ref", False, ("str",))], c.rt, "core::str::traits::FromStr", "from_str")
    c2 = Call(e, "core::str::traits::FromStr::from_str", (t,), [v], [("ref", False, ("str",))], c.rt, "core::str::traits::FromStr", "from_str", None)
    f = TABLE.get("FromStr::from_str")
    r = f(e, c2) if f is not None else None
    return r if r is not None else e.opaque(c2)


@M("TryFrom::try_from")
def m_tryfrom(e, c):
    return try_conv(e, c, c.subs[1] if len(c.subs) > 1 else c.at[0], c.subs[0])


@M("TryInto::try_into")
def m_tryinto(e, c):
    return try_conv(e, c, c.subs[0], c.subs[1])


@M("AsRef::as_ref", "Deref::deref", "Borrow::borrow", "Box::as_ref")
def m_asref(e, c):
    v = c.av[0]
    if v.op == "ptr":
        v = e.load(v)
    t, rt = c.ty(0), unref(c.rt)
    v0 = v
    if v.op == "static" or (v.op == "g" and any(x.op == "static" for x in leaves(v))):
        v = unstatic(e, v)
    if v.op == "adt" and v.a[0] == "LAZY":
        return force_lazy(e, v0, v)
    if t is not None and rt is not None:
        if is_strty(t) and (rt[0] == "slice"):
            return asbytes(v)
        if is_seqty(t) and is_seqty(rt) or t == rt:
            return v
        if t == ("adt", "secp256k1::key::SecretKey", ()) and rt[0] == "array":
            return settype(mk("call", t[1] + "::secret_bytes", None, (e.deep(v),)), rt)
        if c.trait and c.trait.endswith("AsRef") and t[0] == "adt" and not e.prog.adts.get(t[1], {}).get("local") and rt[0] != "param":
            if t[1] in (OPT, RES) or "Box" in t[1] or "Arc" in t[1]:
                return v
            return settype(mk("call", "AsRef::as_ref", None, (e.deep(v),)), c.rt)
    return v


def unstatic(e, v):
    if v.op == "g":
        return apply(None, lambda x: unstatic(e, x), v)
    if v.op == "static" and v.a[0] in e.prog.bodies:
        return e.eval_const_body(v.a[0])
    return v


_lazy = {}


def force_lazy(e, key, v):
    if key in _lazy:
        return _lazy[key]
    sv = (e.st, e.cur, e.ctx, e.rec, e.loops)
    e.st, e.cur, e.ctx, e.loops = {}, TRUE, TRUE, ()
    # panics inside the initialiser count once, like in any other code
    try:
        r = e.deep(e.call_value(v.a[2], [], None))
    finally:
        e.st, e.cur, e.ctx, e.rec, e.loops = sv
    _lazy[key] = r
    return r


@M("Lazy::new", "LazyLock::new", "LazyCell::new")
def m_lazy(e, c):
    return adt("LAZY", 0, c.av[0])


@M("Lazy::force", "LazyLock::force")
def m_force(e, c):
    return m_asref(e, c)


@M("OnceLock::new", "OnceCell::new")
def m_once(e, c):
    return adt("ONCE", 0)


@M("OnceLock::get_or_init", "OnceCell::get_or_init")
def m_get_or_init(e, c):
    return e.call_value(c.av[1], [], None)


# ---------------------------------------------------------------- Option / Result
def opt_ty(c, i=0):
    return c.ty(i)


def V(e, c, i=0):
    """enum argument, loaded"""
    v = c.av[i]
    while v.op == "ptr":
        v = e.load(v)
    t = c.ty(i)
    if t is not None:
        settype(v, t)
    return v


def omatch(e, v, ty, some, none):
    return e.match(v, ty if ty and ty[0] == "adt" and ty[1] == OPT else ("adt", OPT, (None,)), {1: lambda: some(e.payload(v, 1)), 0: none})


def rmatch(e, v, ty, ok, err):
    return e.match(v, ty if ty and ty[0] == "adt" and ty[1] == RES else ("adt", RES, (None, None)), {0: lambda: ok(e.payload(v, 0)), 1: lambda: err(e.payload(v, 1))})


def tfix(e, c, v, i=0):
    """payload types of opaque enum values"""
    return v


def pay(e, v, ty, variant):
    x = e.payload(v, variant)
    if ty is not None and ty[0] == "adt":
        if ty[1] == OPT and variant == 1:
            t = ty[2][0]
        elif ty[1] == RES:
            t = ty[2][variant]
        else:
            t = None
        if t is not None and x.op not in ("g", "int", "adt", "lin", "cat"):
            settype(x, t)
            if t[0] == "bool":
                x = boolify(x)
    return x


def om(e, c, some, none, i=0):
    v = V(e, c, i)
    ty = c.ty(i)
    return e.match(v, ("adt", OPT, (None,)) if ty is None or ty[0] != "adt" else ty, {1: lambda: some(pay(e, v, ty, 1)), 0: none})


def rm(e, c, ok, err, i=0):
    v = V(e, c, i)
    ty = c.ty(i)
    return e.match(v, ("adt", RES, (None, None)) if ty is None or ty[0] != "adt" else ty, {0: lambda: ok(pay(e, v, ty, 0)), 1: lambda: err(pay(e, v, ty, 1))})


def dup(name, fo=None, fr=None):
    if fo:
        TABLE["Option::" + name] = fo
    if fr:
        TABLE["Result::" + name] = fr


dup("map", lambda e, c: om(e, c, lambda x: Some(e.call_value(c.av[1], [x])), lambda: NONE),
    lambda e, c: rm(e, c, lambda x: Ok(e.call_value(c.av[1], [x])), lambda x: Err(x)))
TABLE["Result::map_err"] = lambda e, c: rm(e, c, lambda x: Ok(x), lambda x: Err(e.call_value(c.av[1], [x])))
dup("and_then", lambda e, c: om(e, c, lambda x: e.call_value(c.av[1], [x]), lambda: NONE),
    lambda e, c: rm(e, c, lambda x: e.call_value(c.av[1], [x]), lambda x: Err(x)))
TABLE["Option::ok_or"] = lambda e, c: om(e, c, lambda x: Ok(x), lambda: Err(c.av[1]))
TABLE["Option::ok_or_else"] = lambda e, c: om(e, c, lambda x: Ok(x), lambda: Err(e.call_value(c.av[1], [])))
dup("unwrap_or", lambda e, c: om(e, c, lambda x: x, lambda: c.av[1]), lambda e, c: rm(e, c, lambda x: x, lambda x: c.av[1]))
dup("unwrap_or_else", lambda e, c: om(e, c, lambda x: x, lambda: e.call_value(c.av[1], [])), lambda e, c: rm(e, c, lambda x: x, lambda x: e.call_value(c.av[1], [x])))


def default_of(e, t):
    c = Call(e, "core::default::Default::default", (t,), [], [], t, "core::default::Default", "default", "core::default::Default::default")
    r = m_default(e, c)
    if r is None:
        im = e.resolve("core::default::Default", "default", (t,)) if t is not None else None
        if im is not None:
            return e.through(im[0], im[1], [], [], t, "core::default::Default", "default")
        return settype(mk("call", "Default::default", t, ()), t)
    return r


dup("unwrap_or_default", lambda e, c: om(e, c, lambda x: x, lambda: default_of(e, c.rt)), lambda e, c: rm(e, c, lambda x: x, lambda x: default_of(e, c.rt)))
dup("map_or", lambda e, c: om(e, c, lambda x: e.call_value(c.av[2], [x]), lambda: c.av[1]), lambda e, c: rm(e, c, lambda x: e.call_value(c.av[2], [x]), lambda x: c.av[1]))
dup("map_or_else", lambda e, c: om(e, c, lambda x: e.call_value(c.av[2], [x]), lambda: e.call_value(c.av[1], [])), lambda e, c: rm(e, c, lambda x: e.call_value(c.av[2], [x]), lambda x: e.call_value(c.av[1], [x])))
TABLE["Option::is_some"] = lambda e, c: is_label(e.discr(V(e, c), c.ty(0)), 1)
TABLE["Option::is_none"] = lambda e, c: is_label(e.discr(V(e, c), c.ty(0)), 0)
TABLE["Result::is_ok"] = lambda e, c: is_label(e.discr(V(e, c), c.ty(0)), 0)
TABLE["Result::is_err"] = lambda e, c: is_label(e.discr(V(e, c), c.ty(0)), 1)
TABLE["Result::ok"] = lambda e, c: rm(e, c, lambda x: Some(x), lambda x: NONE)
TABLE["Result::err"] = lambda e, c: rm(e, c, lambda x: NONE, lambda x: Some(x))
dup("or", lambda e, c: om(e, c, lambda x: Some(x), lambda: V(e, c, 1)), lambda e, c: rm(e, c, lambda x: Ok(x), lambda x: V(e, c, 1)))
dup("or_else", lambda e, c: om(e, c, lambda x: Some(x), lambda: e.call_value(c.av[1], [])), lambda e, c: rm(e, c, lambda x: Ok(x), lambda x: e.call_value(c.av[1], [x])))
dup("and", lambda e, c: om(e, c, lambda x: V(e, c, 1), lambda: NONE), lambda e, c: rm(e, c, lambda x: V(e, c, 1), lambda x: Err(x)))
TABLE["Option::is_some_and"] = lambda e, c: om(e, c, lambda x: boolify(e.call_value(c.av[1], [x])), lambda: FALSE)
TABLE["Option::is_none_or"] = lambda e, c: om(e, c, lambda x: boolify(e.call_value(c.av[1], [x])), lambda: TRUE)
TABLE["Result::is_ok_and"] = lambda e, c: rm(e, c, lambda x: boolify(e.call_value(c.av[1], [x])), lambda x: FALSE)
TABLE["Result::is_err_and"] = lambda e, c: rm(e, c, lambda x: FALSE, lambda x: boolify(e.call_value(c.av[1], [x])))
TABLE["Option::xor"] = lambda e, c: None
TABLE["Result::iter"] = None
del TABLE["Result::iter"]


def cond(e, g, a, b):
    return e.fork([(g, a), (Not(g), b)])


def o_filter(e, c):
    def f(x):
        g = boolify(e.call_value(c.av[1], [x]))
        return select([(g, Some(x)), (Not(g), NONE)])
    return om(e, c, f, lambda: NONE)


TABLE["Option::filter"] = o_filter
TABLE["Option::zip"] = lambda e, c: om(e, c, lambda x: om(e, c, lambda y: Some(tup(x, y)), lambda: NONE, 1), lambda: NONE)
TABLE["Option::flatten"] = lambda e, c: om(e, c, lambda x: x, lambda: NONE)
TABLE["Result::flatten"] = lambda e, c: rm(e, c, lambda x: x, lambda x: Err(x))


def o_transpose(e, c):
    v = V(e, c)
    ty = c.ty(0)
    rt = c.rt
    if ty is not None and ty[1] == OPT:
        return om(e, c, lambda r: e.match(r, ty[2][0], {0: lambda: Ok(Some(pay(e, r, ty[2][0], 0))), 1: lambda: Err(pay(e, r, ty[2][0], 1))}), lambda: Ok(NONE))
    return rm(e, c, lambda o: e.match(o, ty[2][0], {1: lambda: Some(Ok(pay(e, o, ty[2][0], 1))), 0: lambda: NONE}), lambda x: Some(Err(x)))


dup("transpose", o_transpose, o_transpose)


def m_unwrap(variant, kind):
    def f(e, c):
        v = V(e, c)
        ty = c.ty(0)
        path = ty[1] if ty is not None and ty[0] == "adt" else (OPT if kind == OPT else RES)
        g = is_label(e.discr(v, ty), variant)
        det = (v,)
        if c.name.endswith("expect") and len(c.av) > 1:
            det = (v, c.av[1])
        e.panic(Not(g), "unwrap", det)
        return pay(e, v, ty, variant)
    return f


for n in ("unwrap", "expect", "unwrap_unchecked"):
    dup(n, m_unwrap(1, OPT), m_unwrap(0, RES))
for n in ("unwrap_err", "expect_err"):
    dup(n, None, m_unwrap(1, RES))


def m_optref(e, c):
    v = c.av[0]
    if v.op == "ptr":
        v = e.load(v)
    return v


for n in ("as_ref", "as_deref", "cloned", "copied", "as_slice", "iter", "into_iter", "inspect", "inspect_err"):
    dup(n, m_optref if n not in ("iter", "into_iter") else None, m_optref if n not in ("iter", "into_iter") else None)


def m_optmut(e, c):
    p = c.av[0]
    if p.op != "ptr":
        return V(e, c)
    v = e.load(p)
    ty = c.ty(0)
    d = e.discr(v, ty)
    if ty is not None and ty[0] == "adt" and ty[1] == RES:
        return select([(is_label(d, 0), Ok(mk("ptr", p.a[0], p.a[1] + (("v", 0), ("f", 0))))), (is_label(d, 1), Err(mk("ptr", p.a[0], p.a[1] + (("v", 1), ("f", 0)))))])
    g = is_label(d, 1)
    return select([(g, Some(mk("ptr", p.a[0], p.a[1] + (("v", 1), ("f", 0))))), (Not(g), NONE)])


dup("as_mut", m_optmut, m_optmut)
dup("as_deref_mut", m_optmut, m_optmut)


@M("Option::take")
def m_take(e, c):
    p = c.av[0]
    v = e.load(p)
    e.store(p, NONE)
    return v


@M("Option::replace")
def m_oreplace(e, c):
    p = c.av[0]
    v = e.load(p)
    e.store(p, Some(c.av[1]))
    return v


@M("Option::insert")
def m_oinsert(e, c):
    p = c.av[0]
    e.store(p, Some(c.av[1]))
    return mk("ptr", p.a[0], p.a[1] + (("v", 1), ("f", 0))) if p.op == "ptr" else c.av[1]


@M("Option::get_or_insert_with", "Option::get_or_insert")
def m_goi(e, c):
    p = c.av[0]
    v = e.load(p)
    r = om(e, c, lambda x: x, lambda: e.call_value(c.av[1], []) if c.name.endswith("with") else c.av[1])
    e.store(p, Some(r))
    return mk("ptr", p.a[0], p.a[1] + (("v", 1), ("f", 0))) if p.op == "ptr" else r


@M("mem::replace")
def m_replace(e, c):
    v = e.load(c.av[0])
    e.store(c.av[0], c.av[1])
    return v


@M("mem::take")
def m_mtake(e, c):
    v = e.load(c.av[0])
    e.store(c.av[0], default_of(e, c.rt))
    return v


@M("mem::swap")
def m_mswap(e, c):
    a, b = e.load(c.av[0]), e.load(c.av[1])
    e.store(c.av[0], b)
    e.store(c.av[1], a)
    return UNIT


@M("mem::drop", "mem::forget")
def m_drop(e, c):
    e.logcall(c.name, (e.deep(c.av[0]),), UNIT, kind="drop")
    return UNIT


@M("Try::branch")
def m_branch(e, c):
    v = V(e, c)
    ty = c.ty(0)
    if ty is not None and ty[0] == "adt" and ty[1] == OPT:
        return om(e, c, lambda x: adt(CF, 0, x), lambda: adt(CF, 1, NONE))
    if ty is not None and ty[0] == "adt" and ty[1] == RES:
        return rm(e, c, lambda x: adt(CF, 0, x), lambda x: adt(CF, 1, Err(x)))
    return None


@M("Try::from_output")
def m_fromout(e, c):
    rt = c.rt
    if rt is not None and rt[0] == "adt":
        if rt[1] == RES:
            return Ok(c.av[0])
        if rt[1] == OPT:
            return Some(c.av[0])
    return None


@M("FromResidual::from_residual")
def m_fromres(e, c):
    rt = c.rt
    v = V(e, c)
    if rt is not None and rt[0] == "adt" and rt[1] == OPT:
        return NONE
    ft = c.ty(0)
    x = e.payload(v, 1)
    fe = ft[2][1] if ft is not None and ft[0] == "adt" and ft[1] == RES else None
    if ft is not None and ft[0] == "adt" and ft[1] == OPT:
        return Err(mk("kst", "none-residual"))
    te = rt[2][1] if rt is not None and rt[0] == "adt" and rt[1] == RES else None
    return Err(conv_or_opaque(e, x, fe, te))


# ---------------------------------------------------------------- iterators
def it(seq, pos=ZERO):
    return adt("ITER", 0, seq, pos)


def chars_to_str(cs):
    if all(x.op == "int" for x in cs):
        return S("".join(chr(x.a[0]) for x in cs))
    return mk("chars2str", lst(cs))


def b_chars2str(cs):
    xs = as_list(cs) if cs.op == "cat" else None
    return chars_to_str(xs) if xs is not None else mk("chars2str", cs)


BUILD["chars2str"] = b_chars2str


def to_seq(e, v, ty=None):
    """remaining elements of an iterator / iterable value"""
    while v.op == "ptr":
        v = e.load(v)
    if v.op == "g":
        return apply(None, lambda x: to_seq(e, x, ty), v)
    if v is BOT:
        return v
    if v.op == "adt":
        p = v.a[0]
        if p == "ITER":
            return drop(v.a[2], v.a[3])
        if p == OPT:
            return lst([v.a[2]]) if v.a[1] == 1 else EMPTY
        if p == RES:
            return lst([v.a[2]]) if v.a[1] == 0 else EMPTY
        if p == "core::ops::range::Range":
            return rng(v.a[2], v.a[3])
        if p == "RANGEI":
            return rng(v.a[2], add(v.a[3], ONE))
        if p == "core::ops::range::RangeFrom":
            return mk("from", v.a[2])
        if p == "ITERMUT":
            q = v.a[4]
            if q.op != "ptr":
                return drop(v.a[2], v.a[3])
            l = few(v.a[2])
            if l is not None and v.a[3].op == "int":
                return lst([mk("ptr", q.a[0], q.a[1] + (("k", I(i)),)) for i in range(v.a[3].a[0], len(l))])
            k = mk("sym", "placek", ("num", "usize"))
            return flat(sub(ln(v.a[2]), v.a[3]), lam([k], lst([mk("ptr", q.a[0], q.a[1] + (("k", add(k, v.a[3])),))])))
    ty = unref(ty or tyof(v))
    if ty is not None and ty[0] == "adt":
        if ty[1] == OPT:
            d = e.discr(v, ty)
            g = is_label(d, 1)
            return select([(g, lst([e.payload(v, 1)])), (Not(g), EMPTY)])
        if ty[1] == RES:
            d = e.discr(v, ty)
            g = is_label(d, 0)
            return select([(g, lst([e.payload(v, 0)])), (Not(g), EMPTY)])
        if "Range" in ty[1] and ty[1].startswith("core::ops::range::Range"):
            return rng(e.proj(v, ("f", 0)), e.proj(v, ("f", 1)))
    if v.op == "map":
        return v.a[0]
    return v


def rng(lo, hi):
    n = sub(hi, lo)
    if n.op == "int" and n.a[0] < 0:
        return EMPTY
    k = mk("sym", "rngk", ("num", "usize"))
    if n.op != "int" and not nonneg(n):
        g = le(lo, hi)
        return select([(g, flat(n, lam([k], lst([add(lo, k)])))), (Not(g), EMPTY)])
    return flat(n, lam([k], lst([add(lo, k)])))


@M("RangeInclusive::new")
def m_ri(e, c):
    return adt("RANGEI", 0, c.av[0], c.av[1])


def m_range_contains(e, c):
    r = c.val(0)
    x = c.val(1)
    if r.op == "adt":
        if r.a[0] == "RANGEI":
            return And(le(r.a[2], x), le(x, r.a[3]))
        if r.a[0].endswith("::Range"):
            return And(le(r.a[2], x), lt(x, r.a[3]))
        if r.a[0].endswith("RangeFrom"):
            return le(r.a[2], x)
        if r.a[0].endswith("RangeTo"):
            return lt(x, r.a[2])
        if r.a[0].endswith("RangeToInclusive"):
            return le(x, r.a[2])
    return None


for n in ("Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeToInclusive", "RangeBounds"):
    TABLE[n + "::contains"] = m_range_contains


@M("IntoIterator::into_iter", "Option::into_iter", "Option::iter", "Result::iter", "Result::into_iter")
def m_into_iter(e, c):
    v = c.av[0]
    at = c.at[0]
    if v.op == "ptr" and at is not None and at[0] == "ref" and at[1]:
        inner = e.load(v)
        if inner.op == "adt" and inner.a[0] == "ITER":
            return v
        it_ty = unref(at)
        if is_seqty(it_ty):
            return iter_mut(e, v)
        return v
    w = e.load(v) if v.op == "ptr" else v
    if w.op == "adt" and w.a[0] in ("ITER", "ITERMUT"):
        return w
    # a local iterator type
    t = unref(at)
    if t is not None and t[0] == "adt" and e.prog.find_impl("core::iter::traits::iterator::Iterator", t):
        return v
    return it(to_seq(e, w, at))


for n in ("slice::iter", "Vec::iter", "str::bytes"):
    TABLE[n] = lambda e, c: it(asbytes(c.val(0)) if c.name.endswith("bytes") else c.val(0))


def iter_mut(e, p):
    s = e.load(p)
    return adt("ITERMUT", 0, s, ZERO, p)


@M("slice::iter_mut", "Vec::iter_mut", "array::iter_mut")
def m_iter_mut(e, c):
    return iter_mut(e, c.av[0])


def as_iter(e, p):
    """(iterator value, writer) for a `&mut I` argument"""
    v = e.load(p) if p.op == "ptr" else p
    return v


@M("Iterator::next")
def m_next(e, c):
    p = c.av[0]
    v = e.load(p) if p.op == "ptr" else p
    hops = 0
    while v.op == "ptr" and hops < 5:
        p = v
        v = e.load(p)
        hops += 1
    rt = c.rt
    et = rt[2][0] if rt is not None and rt[0] == "adt" and rt[1] == OPT else None

    def step(v):
        if v is BOT:
            return tup(BOT, BOT)
        if v.op == "adt" and v.a[0] == "ITERMUT":
            s, pos, q = v.a[2], v.a[3], v.a[4]
            g = lt(pos, ln(s))
            x = mk("ptr", q.a[0], q.a[1] + (("k", pos),)) if q.op == "ptr" else nth(s, pos)
            return tup(select([(g, Some(x)), (Not(g), NONE)]), select([(g, adt("ITERMUT", 0, s, add(pos, ONE), q)), (Not(g), v)]))
        if not (v.op == "adt" and v.a[0] == "ITER"):
            if v.op == "adt" and v.a[0] == "core::ops::range::RangeFrom":
                return tup(Some(v.a[2]), adt(v.a[0], 0, add(v.a[2], ONE)))
            if v.op == "adt" and v.a[0] == "core::ops::range::Range":
                g = lt(v.a[2], v.a[3])
                return tup(select([(g, Some(v.a[2])), (Not(g), NONE)]), adt(v.a[0], 0, select([(g, add(v.a[2], ONE)), (Not(g), v.a[2])]), v.a[3]))
            v = it(to_seq(e, v, c.ty(0)))
        s, pos = v.a[2], v.a[3]
        if s.op == "g":
            return apply(None, lambda s2: step(it(s2, pos)), s)
        if pos is ZERO and gappy(s):
            hit, x = e.iterate(s, lambda x: (TRUE, x), ZERO, True)
            return tup(select([(hit, Some(x)), (Not(hit), NONE)]), it_spent())
        g = lt(pos, ln(s))
        x = nth(s, pos)
        if et is not None and x.op not in ("g", "int", "adt", "lin", "cat", "true", "false", "bot"):
            settype(x, et)
        # a finished iterator stays finished: advancing past the end changes nothing observable
        return tup(select([(g, Some(x)), (Not(g), NONE)]), select([(g, it(s, add(pos, ONE))), (Not(g), v)]))
    r = apply(None, step, v)
    val, nv = e.proj(r, ("f", 0)), e.proj(r, ("f", 1))
    if p.op == "ptr":
        e.store(p, nv)
    return val


@M("DoubleEndedIterator::next_back")
def m_next_back(e, c):
    p = c.av[0]
    v = e.load(p)
    s = to_seq(e, v, c.ty(0))
    n = ln(s)
    g = lt(ZERO, n)
    last = sub(n, ONE)
    e.store(p, select([(g, it(take(s, last))), (Not(g), it(s))]))
    return select([(g, Some(nth(s, last))), (Not(g), NONE)])


@M("Peekable::peek")
def m_peek(e, c):
    v = V(e, c)
    s = to_seq(e, v, c.ty(0))
    g = lt(ZERO, ln(s))
    return select([(g, Some(nth(s, ZERO))), (Not(g), NONE)])


@M("Iterator::peekable")
def m_peekable(e, c):
    return it(S_(e, c))


def S_(e, c, i=0):
    return to_seq(e, c.av[i], c.ty(i))


def build_seq(e, s, f):
    """concatenation of f(elem) over s; f returns a sequence"""
    if s.op == "g":
        return e.fork([(is_path(s, x), (lambda x=x: build_seq(e, x, f))) for x in leaves(s) if x is not BOT])
    l = short_list(s)
    if l is not None:
        return cat([mk("spr", f(x)) for x in l])
    if s.op == "cat" and any(p.op == "spr" and p.a[0].op == "flat" for p in s.a):
        return cat([mk("spr", build_seq(e, p.a[0] if p.op == "spr" else cat([p]), f)) for p in s.a])
    acc = ("acc", e.ncell)
    e.ncell += 1
    e.st = dict(e.st)
    e.st[acc] = EMPTY

    def body(x):
        r = f(x)
        e.st[acc] = cat([mk("spr", e.st[acc]), mk("spr", r)])
        return FALSE, BOT
    e.iterate(s, body)
    return e.st.pop(acc, BOT)


def gsel(g, a, b):
    return select([(g, a), (Not(g), b)])


@M("Iterator::map")
def m_map(e, c):
    return it(build_seq(e, S_(e, c), lambda x: lst([e.call_value(c.av[1], [x])])))


@M("array::map")
def m_array_map(e, c):
    return build_seq(e, to_seq(e, c.av[0], c.at[0]), lambda x: lst([e.call_value(c.av[1], [x])]))


@M("array::from_fn")
def m_array_from_fn(e, c):
    n = c.rt[2] if c.rt is not None and c.rt[0] == "array" else None
    if not (isinstance(n, tuple) and n[0] == "cval" and n[1] <= 1024):
        return None
    return build_seq(e, lst([I(i) for i in range(n[1])]), lambda i: lst([e.call_value(c.av[0], [i])]))


@M("Iterator::inspect")
def m_inspect(e, c):
    def f(x):
        e.call_value(c.av[1], [x])
        return lst([x])
    return it(build_seq(e, S_(e, c), f))


@M("Iterator::filter")
def m_filter(e, c):
    def f(x):
        return gsel(boolify(e.call_value(c.av[1], [x])), lst([x]), EMPTY)
    return it(build_seq(e, S_(e, c), f))


def opt_seq(e, o, ty=None):
    return to_seq(e, o, ty or ("adt", OPT, (None,)))


@M("Iterator::filter_map")
def m_filter_map(e, c):
    return it(build_seq(e, S_(e, c), lambda x: opt_seq(e, e.call_value(c.av[1], [x]))))


@M("Iterator::flat_map")
def m_flat_map(e, c):
    rt = None
    return it(build_seq(e, S_(e, c), lambda x: to_seq(e, e.call_value(c.av[1], [x]))))


@M("Iterator::flatten")
def m_flatten(e, c):
    return it(build_seq(e, S_(e, c), lambda x: to_seq(e, x)))


@M("Iterator::enumerate")
def m_enumerate(e, c):
    s = S_(e, c)

    def f(s):
        l = short_list(s)
        if l is not None:
            return lst([tup(I(i), x) for i, x in enumerate(l)])
        k = mk("sym", "enumk", ("num", "usize"))
        return flat(ln(s), lam([k], lst([tup(k, nth(s, k))])))
    return it(apply(None, f, s))


def zipped(a, b):
    def f(a, b):
        la, lb = short_list(a), short_list(b)
        if la is not None and lb is not None:
            return lst([tup(x, y) for x, y in zip(la, lb)])
        na, nb = engine.ENG.known(ln(a)), engine.ENG.known(ln(b))
        k = mk("sym", "zipk", ("num", "usize"))
        body = lam([k], lst([tup(nth(a, k), nth(b, k))]))
        if a.op == "from":
            n = nb
        elif b.op == "from" or na is nb:
            n = na
        else:
            l = lt(nb, na)
            return select([(l, flat(nb, body)), (Not(l), flat(na, body))])
        return flat(n, body)
    return apply(None, f, a, b)


@M("Iterator::zip", "iter::zip")
def m_zip(e, c):
    return it(zipped(S_(e, c), S_(e, c, 1)))


@M("Iterator::rev")
def m_rev(e, c):
    return it(rev(S_(e, c)))


@M("Iterator::chain")
def m_chain(e, c):
    a, b = S_(e, c), S_(e, c, 1)
    return it(cat([mk("spr", a), mk("spr", b)]))


def clampdrop(s, n):
    g = lt(ln(s), n)
    return select([(g, EMPTY), (Not(g), drop(s, n))])


def clamptake(s, n):
    if s.op == "from":
        return rng(s.a[0], add(s.a[0], n))
    g = lt(ln(s), n)
    return select([(g, s), (Not(g), take(s, n))])


@M("Iterator::skip")
def m_skip(e, c):
    return it(clampdrop(S_(e, c), c.val(1)))


@M("Iterator::take")
def m_itake(e, c):
    s = S_(e, c)
    return it(clamptake(s, c.val(1)))


def first_stop(e, s, f):
    """(stop guard, index-or-value) of the first element for which f gives a guard"""
    return e.iterate(s, f, early=True)


@M("Iterator::take_while", "Iterator::skip_while")
def m_take_while(e, c):
    s = S_(e, c)
    ic = ("cnt", e.ncell)
    e.ncell += 1
    e.st = dict(e.st)
    e.st[ic] = ZERO

    def f(x):
        g = boolify(e.call_value(c.av[1], [x]))
        i = e.st[ic]
        e.st[ic] = add(i, ONE)
        return Not(g), i
    st, i = first_stop(e, s, f)
    e.st.pop(ic, None)
    if c.name.endswith("take_while"):
        return it(select([(st, take(s, i) if i is not BOT else BOT), (Not(st), s)]))
    return it(select([(st, drop(s, i) if i is not BOT else BOT), (Not(st), EMPTY)]))


@M("iter::once", "once::once")
def m_ionce(e, c):
    return it(lst([c.av[0]]))


@M("iter::empty", "empty::empty")
def m_iempty(e, c):
    return it(EMPTY)


@M("iter::repeat", "repeat::repeat")
def m_irepeat(e, c):
    return it(rep(c.av[0], mk("inf")))


@M("iter::repeat_n", "repeat_n::repeat_n")
def m_irepeatn(e, c):
    return it(rep(c.av[0], c.val(1)))


@M("Iterator::for_each")
def m_for_each(e, c):
    v = c.av[0]
    w = e.load(v) if v.op == "ptr" else v
    if w.op == "adt" and w.a[0] == "ITERMUT":
        return itermut_each(e, w, c.av[1])
    fp = c.av[1]
    if fp.op != "ptr":
        fp = mk("ptr", e.newcell(fp), ())

    def body(x):
        e.call_value(fp, [x])
        return FALSE, BOT
    e.iterate(S_(e, c), body)
    return UNIT


def itermut_each(e, w, f):
    s, pos, q = w.a[2], w.a[3], w.a[4]
    n = ln(s)
    k = mk("sym", "imk", ("num", "usize"))
    ks = flat(n, lam([k], lst([k])))

    def body(i):
        e.call_value(f, [mk("ptr", q.a[0], q.a[1] + (("k", i),))])
        return FALSE, BOT
    e.iterate(ks, body)
    return UNIT


@M("Iterator::any")
def m_any(e, c):
    st, v = first_stop(e, S_(e, c), lambda x: (boolify(e.call_value(c.av[1], [x])), UNIT))
    return st


@M("Iterator::all")
def m_all(e, c):
    st, v = first_stop(e, S_(e, c), lambda x: (Not(boolify(e.call_value(c.av[1], [x]))), UNIT))
    return Not(st)


@M("Iterator::find")
def m_find(e, c):
    st, v = first_stop(e, S_(e, c), lambda x: (boolify(e.call_value(c.av[1], [x])), x))
    return gsel(st, Some(v), NONE)


@M("Iterator::position")
def m_position(e, c):
    ic = ("cnt", e.ncell)
    e.ncell += 1
    e.st = dict(e.st)
    e.st[ic] = ZERO

    def f(x):
        g = boolify(e.call_value(c.av[1], [x]))
        i = e.st[ic]
        e.st[ic] = add(i, ONE)
        return g, i
    st, v = first_stop(e, S_(e, c), f)
    e.st.pop(ic, None)
    return gsel(st, Some(v), NONE)


@M("Iterator::find_map")
def m_find_map(e, c):
    def f(x):
        o = e.call_value(c.av[1], [x])
        return is_label(e.discr(o, ("adt", OPT, (None,))), 1), o
    st, v = first_stop(e, S_(e, c), f)
    return gsel(st, v, NONE)


@M("Iterator::fold")
def m_fold(e, c):
    acc = ("acc", e.ncell)
    e.ncell += 1
    e.st = dict(e.st)
    e.st[acc] = c.av[1]

    def f(x):
        e.st[acc] = e.call_value(c.av[2], [e.st[acc], x])
        return FALSE, BOT
    e.iterate(S_(e, c), f)
    return e.st.pop(acc, BOT)


@M("Iterator::try_fold", "Iterator::try_for_each")
def m_try_fold(e, c):
    each = c.name.endswith("each")
    acc = ("acc", e.ncell)
    e.ncell += 1
    e.st = dict(e.st)
    e.st[acc] = UNIT if each else c.av[1]
    rt = c.rt
    isopt = rt is not None and rt[0] == "adt" and rt[1] == OPT
    okv = 1 if isopt else 0

    def f(x):
        r = e.call_value(c.av[1] if each else c.av[2], [x] if each else [e.st[acc], x])
        g = is_label(e.discr(r, rt), okv)
        e.st[acc] = select([(g, e.payload(r, okv)), (Not(g), e.st[acc])])
        return Not(g), r
    st, v = first_stop(e, S_(e, c), f)
    a = e.st.pop(acc, BOT)
    return gsel(st, v, Some(a) if isopt else Ok(a))


@M("Iterator::sum")
def m_sum(e, c):
    if c.rt is None or c.rt[0] != "num":
        return None
    acc = ("acc", e.ncell)
    e.ncell += 1
    e.st = dict(e.st)
    e.st[acc] = ZERO

    def f(x):
        e.st[acc] = add(e.st[acc], x)
        return FALSE, BOT
    e.iterate(S_(e, c), f)
    return e.st.pop(acc, BOT)


@M("Iterator::count", "ExactSizeIterator::len")
def m_count(e, c):
    return ln(S_(e, c))


@M("Iterator::last")
def m_last(e, c):
    s = S_(e, c)
    g = lt(ZERO, ln(s))
    return gsel(g, Some(nth(s, sub(ln(s), ONE))), NONE)


@M("Iterator::nth")
def m_nth(e, c):
    s = S_(e, c)
    i = c.val(1)
    g = lt(i, ln(s))
    if c.av[0].op == "ptr":
        e.store(c.av[0], it(clampdrop(s, add(i, ONE))))
    return gsel(g, Some(nth(s, i)), NONE)


@M("Iterator::cmp")
def m_iter_cmp(e, c):
    """lexicographic"""
    p, q = engine.few(S_(e, c)), engine.few(S_(e, c, 1))
    if p is None or q is None:
        return None
    r = e.cmp3(I(len(p)), I(len(q)))
    for x, y in list(zip(p, q))[::-1]:
        t = unref(tyof(x))
        if t is None or t[0] != "num":
            return None
        same = eq(x, y)
        r = select([(same, r), (Not(same), e.cmp3(x, y))])
    return r


@M("Iterator::eq")
def m_iter_eq(e, c):
    return eq(S_(e, c), S_(e, c, 1))


def is_coll(t):
    t0 = unref(t)
    return t0 is not None and (t0[0] in ("slice",) or t0[0] == "adt" and (t0[1] in ("alloc::vec::Vec", "alloc::string::String", "alloc::collections::vec_deque::VecDeque")))


def collect_to(e, s, rt, item=None):
    t = unref(rt)
    if t is None or t[0] in ("param", "alias"):
        return s
    if t[0] == "adt":
        p = t[1]
        if p in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
            return s
        if p == "alloc::string::String":
            l = short_list(s)
            if l is not None and all(x.op == "int" for x in l):
                return chars_to_str(l)
            if s.op == "chars":
                return s.a[0]
            if l is not None and all(is_strty(tyof(x)) or x.op == "str" for x in l):
                return cat([mk("spr", x) for x in l])
            return mk("collect", "String", s)
        if p in (RES, OPT):
            okv = 0 if p == RES else 1
            acc = ("acc", e.ncell)
            e.ncell += 1
            e.st = dict(e.st)
            e.st[acc] = EMPTY

            def f(x):
                d = is_label(e.discr(x, ("adt", p, (None, None))), okv)
                e.st[acc] = gsel(d, cat([mk("spr", e.st[acc]), one(e.payload(x, okv))]), e.st[acc])
                return Not(d), x
            st, v = first_stop(e, s, f)
            a = e.st.pop(acc, BOT)
            inner = collect_to(e, a, t[2][0]) if t[2] and t[2][0] is not None else a
            if p == RES:
                bad = Err(e.payload(v, 1)) if v is not BOT else BOT
                return select([(st, bad), (Not(st), Ok(inner))])
            return select([(st, NONE), (Not(st), Some(inner))])
        if "Map" in p or "Set" in p:
            return mk("map", s)
    if t == ("tuple", ()):
        return UNIT
    return mk("collect", tykey(t), s)


@M("Iterator::collect", "FromIterator::from_iter")
def m_collect(e, c):
    return collect_to(e, S_(e, c), c.rt)


@M("Iterator::partition")
def m_partition(e, c):
    s = S_(e, c)
    a = build_seq(e, s, lambda x: gsel(boolify(e.call_value(c.av[1], [x])), lst([x]), EMPTY))
    b = build_seq(e, s, lambda x: gsel(boolify(e.call_value(c.av[1], [x])), EMPTY, lst([x])))
    return tup(a, b)


@M("Iterator::unzip")
def m_unzip(e, c):
    s = S_(e, c)
    return tup(build_seq(e, s, lambda x: lst([e.proj(x, ("f", 0))])), build_seq(e, s, lambda x: lst([e.proj(x, ("f", 1))])))


# ---------------------------------------------------------------- vectors, slices, strings
@M("Vec::new", "Vec::with_capacity", "VecDeque::new", "VecDeque::with_capacity")
def m_vnew(e, c):
    return EMPTY


@M("String::new", "String::with_capacity")
def m_snew(e, c):
    return S("")


@M("vec::from_elem")
def m_from_elem(e, c):
    return rep(c.val(0), c.val(1))


@M("Box::new_uninit", "MaybeUninit::uninit", "Box::new_uninit_slice")
def m_uninit(e, c):
    return mk("uninit")


def modify(e, c, f):
    p = c.av[0]
    v = c.val(0) if p.op != "ptr" else e.deep(e.load(p))
    r = apply(None, f, v)
    e.store(p, r)
    return UNIT


@M("Vec::push", "VecDeque::push_back")
def m_push(e, c):
    x = c.av[1]
    return modify(e, c, lambda v: cat([mk("spr", v), one(x)]) if v is not BOT else BOT)


@M("VecDeque::push_front")
def m_push_front(e, c):
    x = c.av[1]
    return modify(e, c, lambda v: cat([one(x), mk("spr", v)]) if v is not BOT else BOT)


@M("String::push")
def m_spush(e, c):
    x = c.val(1)
    return modify(e, c, lambda v: cat([mk("spr", v), mk("spr", S(chr(x.a[0]))) if x.op == "int" else one(x)]) if v is not BOT else BOT)


@M("Vec::extend_from_slice", "String::push_str", "Extend::extend", "Vec::extend", "String::extend")
def m_extend(e, c):
    s = S_(e, c, 1)
    return modify(e, c, lambda v: cat([mk("spr", v), mk("spr", s)]) if v is not BOT else BOT)


@M("Vec::append", "VecDeque::append")
def m_append(e, c):
    s = e.load(c.av[1])
    r = modify(e, c, lambda v: cat([mk("spr", v), mk("spr", s)]) if v is not BOT else BOT)
    e.store(c.av[1], EMPTY)
    return r


@M("Vec::clear", "VecDeque::clear")
def m_clear(e, c):
    e.store(c.av[0], EMPTY)
    return UNIT


@M("String::clear")
def m_sclear(e, c):
    e.store(c.av[0], S(""))
    return UNIT


@M("Vec::pop", "VecDeque::pop_back")
def m_pop(e, c):
    v = e.deep(e.load(c.av[0]))
    n = ln(v)
    g = lt(ZERO, n)
    last = sub(n, ONE)
    e.store(c.av[0], gsel(g, take(v, last), v))
    return gsel(g, Some(nth(v, last)), NONE)


@M("VecDeque::pop_front")
def m_pop_front(e, c):
    v = e.deep(e.load(c.av[0]))
    g = lt(ZERO, ln(v))
    e.store(c.av[0], gsel(g, drop(v, ONE), v))
    return gsel(g, Some(nth(v, ZERO)), NONE)


@M("Vec::insert", "String::insert", "VecDeque::insert", "String::insert_str")
def m_insert(e, c):
    i = c.val(1)
    x = c.av[2]
    v = e.load(c.av[0])
    e.panic(lt(ln(v), i), "insert", (v, i))
    if c.name.endswith("insert_str"):
        part = mk("spr", c.val(2))
    else:
        part = mk("spr", S(chr(x.a[0]))) if x.op == "int" and "String" in c.name else one(x)
    return modify(e, c, lambda v: cat([mk("spr", take(v, i)), part, mk("spr", drop(v, i))]) if v is not BOT else BOT)


@M("Vec::remove", "VecDeque::remove")
def m_remove(e, c):
    i = c.val(1)
    v = e.deep(e.load(c.av[0]))
    if "Deque" in c.name:
        return None
    e.panic(le(ln(v), i), "bounds", (ln(v), i))
    e.store(c.av[0], cat([mk("spr", take(v, i)), mk("spr", drop(v, add(i, ONE)))]))
    return nth(v, i)


@M("Vec::swap_remove")
def m_swap_remove(e, c):
    i = c.val(1)
    v = e.deep(e.load(c.av[0]))
    e.panic(le(ln(v), i), "bounds", (ln(v), i))
    last = sub(ln(v), ONE)
    e.store(c.av[0], take(put(v, i, nth(v, last)), last))
    return nth(v, i)


@M("Vec::truncate", "String::truncate")
def m_truncate(e, c):
    n = c.val(1)
    return modify(e, c, lambda v: clamptake(v, n) if v is not BOT else BOT)


@M("Vec::resize")
def m_resize(e, c):
    n, x = c.val(1), c.val(2)

    def f(v):
        if v is BOT:
            return v
        g = lt(n, ln(v))
        return gsel(g, take(v, n), cat([mk("spr", v), mk("spr", rep(x, sub(n, ln(v))))]))
    return modify(e, c, f)


@M("slice::reverse", "Vec::reverse")
def m_reverse(e, c):
    return modify(e, c, rev)


@M("slice::fill")
def m_fill(e, c):
    x = c.val(1)
    return modify(e, c, lambda v: rep(x, ln(v)))


@M("slice::swap")
def m_swap(e, c):
    i, j = c.val(1), c.val(2)
    v = e.load(c.av[0])
    e.panic(le(ln(v), i), "bounds", (ln(v), i))
    e.panic(le(ln(v), j), "bounds", (ln(v), j))
    return modify(e, c, lambda v: put(put(v, i, nth(v, j)), j, nth(v, i)))


@M("Vec::drain")
def m_drain(e, c):
    v = e.load(c.av[0])
    lo, hi = bounds_of(e, c.val(1), v)
    if lo is None:
        return None
    range_panics(e, v, lo, hi)
    e.store(c.av[0], cat([mk("spr", take(v, lo)), mk("spr", drop(v, hi))]))
    return it(slice_(v, lo, hi))


@M("Vec::retain")
def m_retain(e, c):
    v = e.deep(e.load(c.av[0]))
    r = build_seq(e, v, lambda x: gsel(boolify(e.call_value(c.av[1], [x])), lst([x]), EMPTY))
    e.store(c.av[0], r)
    return UNIT


@M("Vec::split_off")
def m_split_off(e, c):
    i = c.val(1)
    v = e.deep(e.load(c.av[0]))
    e.panic(lt(ln(v), i), "split", (v, i))
    e.store(c.av[0], take(v, i))
    return drop(v, i)


@M("slice::len", "Vec::len", "str::len", "String::len", "VecDeque::len", "array::len")
def m_len(e, c):
    n = ln(c.val(0))
    engine.MEMLENS.update(x.id for x in leaves(n))
    return n


@M("slice::is_empty", "Vec::is_empty", "str::is_empty", "String::is_empty", "VecDeque::is_empty")
def m_is_empty(e, c):
    return is_label(ln(c.val(0)), 0)


@M("slice::first", "Vec::first", "VecDeque::front")
def m_first(e, c):
    v = c.val(0)
    g = lt(ZERO, ln(v))
    return gsel(g, Some(nth(v, ZERO)), NONE)


@M("slice::last", "Vec::last", "VecDeque::back")
def m_slast(e, c):
    v = c.val(0)
    g = lt(ZERO, ln(v))
    return gsel(g, Some(nth(v, sub(ln(v), ONE))), NONE)


def range_kind(e, r):
    return r.a[0].split("::")[-1] if r.op == "adt" else None


def bounds_of(e, r, v):
    k = range_kind(e, r)
    n = ln(v)
    if k == "Range":
        return r.a[2], r.a[3]
    if k == "RangeFrom":
        return r.a[2], n
    if k == "RangeTo":
        return ZERO, r.a[2]
    if k == "RangeToInclusive":
        return ZERO, add(r.a[2], ONE)
    if k == "RANGEI" or k == "RangeInclusive":
        return r.a[2], add(r.a[3], ONE)
    if k == "RangeFull":
        return ZERO, n
    return None, None


def range_panics(e, v, lo, hi):
    n = ln(v)
    e.panic(lt(n, hi), "range", (n, hi))
    e.panic(lt(hi, lo), "range", (hi, lo))


@M("slice::get", "Vec::get", "str::get", "VecDeque::get")
def m_get(e, c):
    v = c.val(0)
    i = c.val(1)
    n = ln(v)
    t = c.ty(1)
    if t is not None and t[0] == "num":
        g = lt(i, n)
        x = nth(v, i)
        if c.rt is not None and c.rt[0] == "adt" and x.op not in ("g", "int", "adt", "lin", "cat"):
            settype(x, unref(c.rt[2][0]))
        return gsel(g, Some(x), NONE)
    lo, hi = bounds_of(e, i, v)
    if lo is None:
        return None
    g = And(le(hi, n), le(lo, hi))
    if is_strty(c.ty(0)):
        g = And(g, And(charb(v, lo), charb(v, hi)))
    return gsel(g, Some(slice_(v, lo, hi)), NONE)


@M("slice::get_mut", "Vec::get_mut", "slice::first_mut", "slice::last_mut", "Vec::last_mut")
def m_get_mut(e, c):
    p = c.av[0]
    if p.op != "ptr":
        return None
    v = e.load(p)
    n = ln(v)
    m = c.name.split("::")[-1]
    i = c.val(1) if m == "get_mut" else ZERO if m == "first_mut" else sub(n, ONE)
    if m == "get_mut" and c.ty(1) is not None and c.ty(1)[0] != "num":
        return None
    g = lt(i, n) if m == "get_mut" else lt(ZERO, n)
    return gsel(g, Some(mk("ptr", p.a[0], p.a[1] + (("k", i),))), NONE)


def charb(v, i):
    """i is a character boundary of string v"""
    n = ln(v)

    def f(i):
        if i is ZERO or i is n:
            return TRUE
        if v.op == "str" and i.op == "int" and i.a[0] <= len(v.a[0]):
            return TRUE
        s, j = v, i
        # a slice of a string starts at a character boundary of it
        while s.op == "slice" and s.a[2] is None:
            s, j = s.a[0], add(s.a[1], j)
        return boolify(mk("charboundary", s, j))
    return apply(None, f, i)


@M("f64::ceil", "f64::floor", "f64::trunc")
def m_fround(e, c):
    import math
    v = c.val(0)

    def f(v):
        if v.op == "float" and math.isfinite(v.a[0]):
            return mk("float", float(getattr(math, c.name.split("::")[-1])(v.a[0])))
        return settype(mk("call", c.name, None, (v,)), c.rt)
    return apply(None, f, v)


@M("Index::index")
def m_index(e, c):
    v = c.val(0)
    i = c.val(1)
    t = c.ty(1)
    t0 = c.ty(0)
    if t0 is not None and t0[0] == "adt" and ("Map" in t0[1]):
        o = map_get(e, v, i, c.rt)
        e.panic(is_label(e.discr(o, ("adt", OPT, (None,))), 0), "index", (v, i))
        return e.payload(o, 1)
    if t is not None and t[0] == "num":
        e.panic(le(ln(v), i), "bounds", (ln(v), i))
        x = nth(v, i)
        if x.op not in ("g", "int", "adt", "lin", "cat"):
            settype(x, unref(c.rt))
        return x
    if t is not None and t[0] == "adt":
        lo, hi = bounds_of(e, i, v)
        if lo is not None:
            range_panics(e, v, lo, hi)
            if is_strty(t0):
                e.panic(Not(And(charb(v, lo), charb(v, hi))), "charboundary", (v, lo, hi))
            return slice_(v, lo, hi)
    return None


@M("IndexMut::index_mut")
def m_index_mut(e, c):
    p = c.av[0]
    i = c.val(1)
    t = c.ty(1)
    if p.op != "ptr":
        return None
    v = e.load(p)
    if t is not None and t[0] == "num":
        e.panic(le(ln(v), i), "bounds", (ln(v), i))
        return mk("ptr", p.a[0], p.a[1] + (("k", i),))
    if t is not None and t[0] == "adt":
        lo, hi = bounds_of(e, i, v)
        if lo is not None:
            range_panics(e, v, lo, hi)
            return mk("ptr", p.a[0], p.a[1] + (("range", lo, hi),))
    return None


@M("slice::copy_from_slice", "slice::clone_from_slice")
def m_cfs(e, c):
    p = c.av[0]
    dst = e.load(p)
    src = c.val(1)
    e.panic(Not(eq(ln(dst), ln(src))), "copylen", (ln(dst), ln(src)))
    if p.op == "ptr":
        e.store(p, src)
    return UNIT


@M("slice::split_at", "str::split_at")
def m_split_at(e, c):
    v, i = c.val(0), c.val(1)
    e.panic(lt(ln(v), i), "split", (ln(v), i))
    if c.name.startswith("str") or is_strty(c.ty(0)):
        e.panic(Not(charb(v, i)), "charboundary", (v, i))
    return tup(take(v, i), drop(v, i))


@M("slice::chunks", "slice::chunks_exact")
def m_chunks(e, c):
    k = c.val(1)
    if k.op != "int" or k.a[0] < 1:
        return None
    v = c.val(0)
    return mk("chunks", v, k, c.name.endswith("exact")) if v.op != "g" else apply(("chunks", k), lambda x: mk("chunks", x, k, c.name.endswith("exact")), v)


@M("slice::split_at_checked", "str::split_at_checked")
def m_split_atc(e, c):
    v, i = c.val(0), c.val(1)
    g = le(i, ln(v))
    if is_strty(c.ty(0)):
        g = And(g, charb(v, i))
    return gsel(g, Some(tup(take(v, i), drop(v, i))), NONE)


@M("slice::split_first", "slice::split_last")
def m_split_first(e, c):
    v = c.val(0)
    n = ln(v)
    g = lt(ZERO, n)
    if c.name.endswith("first"):
        return gsel(g, Some(tup(nth(v, ZERO), drop(v, ONE))), NONE)
    return gsel(g, Some(tup(nth(v, sub(n, ONE)), take(v, sub(n, ONE)))), NONE)


@M("slice::contains", "Vec::contains")
def m_contains(e, c):
    v, x = c.val(0), c.val(1)
    l = short_list(v)
    if l is not None:
        r = FALSE
        for y in l:
            r = Or(r, eq(y, x))
        return r
    return None


@M("slice::starts_with", "str::starts_with")
def m_starts(e, c):
    v, p = c.val(0), c.val(1)
    t = c.ty(1)
    if t is not None and (t[0] in ("str", "slice", "array") or is_strty(t)):
        n = ln(p)
        if n.op == "int":
            g = le(n, ln(v))
            return And(g, eq(take(v, n), p))
    if asciichar(p):
        return And(lt(ZERO, ln(v)), eq(nth(asbytes(v), ZERO), p))
    return None


def asciichar(p):
    return p.op == "int" and p.a[0] < 128


@M("slice::ends_with", "str::ends_with")
def m_ends(e, c):
    v, p = c.val(0), c.val(1)
    t = c.ty(1)
    if t is not None and (t[0] in ("slice", "array") or is_strty(t)):
        n = ln(p)
        if n.op == "int":
            g = le(n, ln(v))
            return And(g, eq(drop(v, sub(ln(v), n)), p))
    return None


@M("str::strip_prefix", "slice::strip_prefix")
def m_strip(e, c):
    v, p = c.val(0), c.val(1)
    t = c.ty(1)
    if t is not None and (t[0] in ("slice", "array") or is_strty(t)):
        n = ln(p)
        if n.op == "int":
            g = And(le(n, ln(v)), eq(take(v, n), p))
            return gsel(g, Some(drop(v, n)), NONE)
    if asciichar(p):
        return gsel(And(lt(ZERO, ln(v)), eq(nth(asbytes(v), ZERO), p)), Some(drop(v, ONE)), NONE)
    return None


@M("str::strip_suffix", "slice::strip_suffix")
def m_strip_end(e, c):
    v, p = c.val(0), c.val(1)
    t = c.ty(1)
    if t is not None and (t[0] in ("slice", "array") or is_strty(t)):
        n = ln(p)
        if n.op == "int":
            r = sub(ln(v), n)
            g = And(le(n, ln(v)), eq(drop(v, r), p))
            return gsel(g, Some(take(v, r)), NONE)
    return None


@M("slice::concat", "slice::concat")
def m_concat(e, c):
    v = c.val(0)
    return build_seq(e, v, lambda x: x)


@M("slice::first_chunk", "slice::last_chunk")
def m_chunk(e, c):
    v = c.val(0)
    rt = c.rt
    a = unref(rt[2][0]) if rt is not None and rt[0] == "adt" else None
    if a is None or a[0] != "array" or a[2][0] != "cval":
        return None
    n = I(a[2][1])
    g = le(n, ln(v))
    return gsel(g, Some(take(v, n) if "first" in c.name else drop(v, sub(ln(v), n))), NONE)


def split_of(v, p):
    return settype(mk("call", "str::split", None, (v, p)), ("slice", ("ref", False, ("str",))))


def split_rest(v, p, k):
    """what follows the k-th separator"""
    return settype(mk("call", "str::split_rest", None, (v, p, I(k))), ("str",))


@M("str::split")
def m_split(e, c):
    return it(split_of(c.val(0), c.val(1))) if c.ty(1) is not None and c.ty(1)[0] == "char" else None


@M("str::splitn")
def m_splitn(e, c):
    v, k, p = c.val(0), c.val(1), c.val(2)
    if c.ty(2) is None or c.ty(2)[0] != "char" or k.op != "int" or not 1 <= k.a[0] <= 4:
        return None
    s = split_of(v, p)
    r = []
    for i in range(1, k.a[0]):
        r.append((is_label(ln(s), i), lst([nth(s, I(j)) for j in range(i)])))
    k = k.a[0]
    last = select([(is_label(ln(s), k), nth(s, I(k - 1))), (Not(is_label(ln(s), k)), split_rest(v, p, k - 1))])
    r.append((le(I(k), ln(s)), lst([nth(s, I(j)) for j in range(k - 1)] + [last])))
    return it(select(r))


@M("str::split_once")
def m_split_once(e, c):
    v, p = c.val(0), c.val(1)
    if c.ty(1) is None or c.ty(1)[0] != "char":
        return None
    s = split_of(v, p)
    n = ln(s)
    return select([(is_label(n, 1), NONE), (is_label(n, 2), Some(tup(nth(s, ZERO), nth(s, ONE)))),
                   (And(Not(is_label(n, 1)), Not(is_label(n, 2))), Some(tup(nth(s, ZERO), split_rest(v, p, 1))))])


@M("str::as_bytes", "String::as_bytes", "String::into_bytes", "str::into_bytes")
def m_as_bytes(e, c):
    return asbytes(c.val(0))


@M("str::bytes")
def m_bytes(e, c):
    return it(asbytes(c.val(0)))


def chars_of(v):
    def f(x):
        if x.op == "str":
            return lst([I(ord(ch)) for ch in x.a[0]])
        return mk("chars", x)
    return apply("chars", f, v)


@M("str::chars")
def m_chars(e, c):
    return it(settype(chars_of(c.val(0)), ("slice", ("char",))))


@M("String::from_utf8", "str::from_utf8", "converts::from_utf8")
def m_from_utf8(e, c):
    v = c.val(0)

    def f(v):
        if v is BOT:
            return BOT
        if v.op == "asbytes":
            return Ok(v.a[0])
        l = short_list(v, 4096)
        if l is not None and all(x.op == "int" and x.a[0] < 128 for x in l):
            return Ok(S("".join(chr(x.a[0]) for x in l)))
        g = boolify(mk("isutf8", v))
        s = settype(mk("utf8", v), ("adt", "alloc::string::String", ()))
        return select([(g, Ok(s)), (Not(g), Err(mk("utf8err", v)))])
    return apply(None, f, v)


def _len_utf8(v):
    return ln(v.a[0])


@M("slice::is_ascii", "str::is_ascii")
def m_is_ascii(e, c):
    v = c.val(0)
    if is_strty(c.ty(0)):
        v = asbytes(v)
    l = as_list(v) if v.op in ("cat", "str") else None
    if l is not None and all(x.op == "int" for x in l):
        return TRUE if all(x.a[0] < 128 for x in l) else FALSE
    return boolify(mk("ascii", v))


@M("char::to_ascii_lowercase", "u8::to_ascii_lowercase")
def m_lower(e, c):
    v = c.val(0)

    def f(v):
        if v.op == "int":
            x = v.a[0]
            return I(x + 32 if 65 <= x <= 90 else x)
        return settype(mk("lower", v), c.rt)
    return apply(None, f, v)


@M("char::to_ascii_uppercase", "u8::to_ascii_uppercase")
def m_upper(e, c):
    v = c.val(0)

    def f(v):
        if v.op == "int":
            x = v.a[0]
            return I(x - 32 if 97 <= x <= 122 else x)
        return settype(mk("upper", v), c.rt)
    return apply(None, f, v)


@M("str::to_ascii_lowercase", "str::to_lowercase")
def m_slower(e, c):
    v = c.val(0)
    return apply(None, lambda x: S(x.a[0].lower()) if x.op == "str" else settype(mk("lower", x), c.rt), v)


@M("str::eq_ignore_ascii_case")
def m_eqi(e, c):
    a, b = c.val(0), c.val(1)
    if a.op == "str" and b.op == "str":
        return TRUE if a.a[0].lower() == b.a[0].lower() else FALSE
    for x, y in ((a, b), (b, a)):
        if y.op == "str":
            # equal to a constant without regard to case: the lower case form is the constant's
            return apply(None, lambda z: eq(S(z.a[0].lower()) if z.op == "str" else settype(mk("lower", z), STRT), S(y.a[0].lower())), x)
    return boolify(mk("eqi", *sorted((a, b))))


STRT = ("str",)


# ---------------------------------------------------------------- maps
def map_get(e, m, k, rt=None):
    if m.op == "g":
        return apply(None, lambda x: map_get(e, x, k, rt), m)
    if m.op == "map":
        l = short_list(m.a[0])
        if l is not None:
            items, rest = [], TRUE
            for x in reversed(l):
                g = And(rest, eq(e.proj(x, ("f", 0)), k))
                items.append((g, Some(e.proj(x, ("f", 1)))))
                rest = And(rest, Not(g))
            items.append((rest, NONE))
            return select(items)
    r = mk("mget", m, k)
    if rt is not None:
        settype(r, rt)
    return r


@M("HashMap::new", "BTreeMap::new", "Map::new", "HashSet::new", "BTreeSet::new", "HashMap::with_capacity", "Map::with_capacity")
def m_mapnew(e, c):
    return mk("map", EMPTY)


@M("HashMap::get", "BTreeMap::get")
def m_mapget(e, c):
    return map_get(e, c.val(0), c.val(1), c.rt)


@M("HashMap::contains_key", "BTreeMap::contains_key")
def m_mapcontains(e, c):
    o = map_get(e, c.val(0), c.val(1), None)
    return is_label(e.discr(o, ("adt", OPT, (None,))), 1)


@M("HashMap::insert", "BTreeMap::insert", "Map::insert")
def m_mapinsert(e, c):
    p = c.av[0]
    m = e.load(p)
    k, v = e.deep(c.av[1]), e.deep(c.av[2])
    old = map_get(e, m, k, c.rt)

    def f(m):
        s = m.a[0] if m.op == "map" else m
        return mk("map", cat([mk("spr", s), one(tup(k, v))]))
    e.store(p, apply(None, f, m))
    return old


@M("value::to_value", "serde_json::to_value")
def m_to_value(e, c):
    v, t = c.val(0), c.ty(0)
    if is_strty(t):
        return Ok(settype(mk("conv", "json", v), ("adt", "serde_json::value::Value", ())))
    if t is not None and t[0] == "adt" and t[1].endswith("::Value") and "serde_json" in t[1]:
        return Ok(v)
    return None


# ---------------------------------------------------------------- integers
def nbytes(n):
    return {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16}[n]


def ibytes(en, n, x):
    def f(x):
        if x is BOT:
            return x
        if x.op == "int" and x.a[0] >= 0:
            return bytes_(x.a[0].to_bytes(n, "big" if en == "be" else "little"))
        if x.op == "fromb" and x.a[0] == en and x.a[1] == n:
            return x.a[2]
        if n == 1:
            return lst([x])
        return settype(mk("ibytes", en, n, x), ("array", ("num", "u8"), ("cval", n)))
    return apply(("ibytes", en, n), f, x)


def fromb(en, n, s, tn):
    def f(s):
        if s is BOT:
            return s
        if s.op == "ibytes" and s.a[0] == en and s.a[1] == n:
            return s.a[2]
        if s.op == "rev":
            return fromb("le" if en == "be" else "be", n, s.a[0], tn)
        l = as_list(s) if s.op == "cat" else None
        if l is not None and all(x.op == "int" for x in l):
            return I(int.from_bytes(bytes(x.a[0] for x in l), "big" if en == "be" else "little"))
        if n == 1:
            return nth(s, ZERO)
        return settype(mk("fromb", en, n, s), ("num", tn))
    return apply(None, f, s)


BUILD["ibytes"] = ibytes
BUILD["fromb"] = lambda en, n, s: fromb(en, n, s, "u64")


def _len_ibytes():
    pass


for tn in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"):
    def mkf(tn):
        n = nbytes(tn)
        TABLE[f"{tn}::to_be_bytes"] = lambda e, c: ibytes("be", n, c.val(0))
        TABLE[f"{tn}::to_le_bytes"] = lambda e, c: ibytes("le", n, c.val(0))
        TABLE[f"{tn}::to_ne_bytes"] = lambda e, c: ibytes("le", n, c.val(0))
        TABLE[f"{tn}::from_be_bytes"] = lambda e, c: fromb("be", n, c.val(0), tn)
        TABLE[f"{tn}::from_le_bytes"] = lambda e, c: fromb("le", n, c.val(0), tn)
        TABLE[f"{tn}::from_ne_bytes"] = lambda e, c: fromb("le", n, c.val(0), tn)
        TABLE[f"{tn}::to_le"] = lambda e, c: c.val(0)
        TABLE[f"{tn}::min"] = m_min
        TABLE[f"{tn}::max"] = m_max

        def checked(op):
            def f(e, c):
                a, b = c.val(0), c.val(1)
                if op in ("Div", "Rem"):
                    z = is_label(b, 0)
                    return gsel(z, NONE, Some(e.binop(op, a, b, ("num", tn), ("num", tn))))
                r = {"Add": add, "Sub": sub, "Mul": mul}[op](a, b)
                if op == "Sub" and RANGE[tn][0] == 0:
                    o = lt(a, b)
                else:
                    o = e.overflow(r, tn, op, a, b)
                return gsel(o, NONE, Some(r))
            return f

        def saturating(op):
            def f(e, c):
                a, b = c.val(0), c.val(1)
                r = {"Add": add, "Sub": sub, "Mul": mul}[op](a, b)
                if op == "Sub" and RANGE[tn][0] == 0:
                    return gsel(lt(a, b), ZERO, r)
                o = e.overflow(r, tn, op, a, b)
                if o is FALSE:
                    return r
                return gsel(o, mk("sat", tn, r), r)
            return f

        def wrapping(op):
            def f(e, c):
                a, b = c.val(0), c.val(1)
                r = {"Add": add, "Sub": sub, "Mul": mul}[op](a, b)
                return apply(None, lambda x: e.intcast(x, None, tn), r)
            return f

        def overflowing(op):
            def f(e, c):
                a, b = c.val(0), c.val(1)
                r = {"Add": add, "Sub": sub, "Mul": mul}[op](a, b)
                w = apply(None, lambda x: e.intcast(x, None, tn), r)
                return tup(w, e.overflow(r, tn, op, a, b))
            return f
        for op in ("Add", "Sub", "Mul", "Div", "Rem"):
            TABLE[f"{tn}::checked_{op.lower()}"] = checked(op)
            if op in ("Add", "Sub", "Mul"):
                TABLE[f"{tn}::saturating_{op.lower()}"] = saturating(op)
                TABLE[f"{tn}::wrapping_{op.lower()}"] = wrapping(op)
                TABLE[f"{tn}::overflowing_{op.lower()}"] = overflowing(op)

        def pow_(e, c):
            a, b = c.val(0), c.val(1)
            if a.op == "int" and b.op == "int":
                return I(a.a[0] ** b.a[0])
            return None
        TABLE[f"{tn}::pow"] = pow_

        def divceil(e, c):
            a, b = c.val(0), c.val(1)
            if a.op == "int" and b.op == "int" and b.a[0]:
                return I(-(-a.a[0] // b.a[0]))
            return None
        TABLE[f"{tn}::div_ceil"] = divceil
    mkf(tn)


def arith(opn):
    def f(e, c):
        t = c.ty(0)
        if t is not None and (t[0] == "num" or t[0] == "adt" and t[1].endswith("::Amount")):
            a, b = c.val(0), c.val(1)
            tn = tname(t) if t[0] == "num" else "u64"
            if opn in ("Add", "Sub", "Mul"):
                r = {"Add": add, "Sub": sub, "Mul": mul}[opn](a, b)
                if opn == "Sub" and RANGE[tn][0] == 0:
                    e.panic(lt(a, b), "overflow" if t[0] == "num" else "amount", (r,))
                else:
                    e.panic(e.overflow(r, tn, opn, a, b), "overflow", (r,))
                return r
            if opn in ("Div", "Rem"):
                e.panic(is_label(b, 0), "divzero", (b,))
            if opn in ("Shl", "Shr"):
                lo, hi = RANGE[tn]
                e.panic(lt(I((hi - lo).bit_length() - 1), b), "overflow", (b,))
            return e.binop(opn, a, b, ("num", tn), ("num", tn))
        if t == ("bool",) and opn in ("BitAnd", "BitOr", "BitXor"):
            return e.binop(opn, boolify(c.val(0)), boolify(c.val(1)), t, t)
        return None
    return f


for n, op in (("Add::add", "Add"), ("Sub::sub", "Sub"), ("Mul::mul", "Mul"), ("Div::div", "Div"), ("Rem::rem", "Rem"), ("BitAnd::bitand", "BitAnd"), ("BitOr::bitor", "BitOr"), ("BitXor::bitxor", "BitXor"), ("Shl::shl", "Shl"), ("Shr::shr", "Shr")):
    TABLE[n] = arith(op)


def arith_assign(opn):
    g = arith(opn)

    def f(e, c):
        if opn == "Add" and is_strty(c.ty(0)):
            return m_extend(e, c)
        old = c.val(0)
        c2 = Call(e, c.name, c.subs, [old, c.av[1]], [c.ty(0), c.at[1]], c.ty(0), c.trait, c.m, c.tp)
        r = g(e, c2)
        if r is None:
            return None
        e.store(c.av[0], r)
        return UNIT
    return f


for n, op in (("AddAssign::add_assign", "Add"), ("SubAssign::sub_assign", "Sub"), ("MulAssign::mul_assign", "Mul"), ("DivAssign::div_assign", "Div"), ("RemAssign::rem_assign", "Rem"), ("BitAndAssign::bitand_assign", "BitAnd"), ("BitOrAssign::bitor_assign", "BitOr"), ("BitXorAssign::bitxor_assign", "BitXor"), ("ShlAssign::shl_assign", "Shl"), ("ShrAssign::shr_assign", "Shr")):
    TABLE[n] = arith_assign(op)


@M("Not::not")
def m_notop(e, c):
    if c.ty(0) == ("bool",):
        return Not(boolify(c.val(0)))
    return None


@M("bool::then")
def m_then(e, c):
    g = boolify(c.val(0))
    return e.fork([(g, lambda: Some(e.call_value(c.av[1], []))), (Not(g), lambda: NONE)])


@M("bool::then_some")
def m_then_some(e, c):
    g = boolify(c.val(0))
    return gsel(g, Some(c.av[1]), NONE)


# ---------------------------------------------------------------- io
def reader(e, c):
    p = c.av[0]
    while p.op == "ptr":
        v = e.load(p)
        if v.op == "ptr":
            p = v
            continue
        return p, v
    return p, p


@M("Read::read_exact")
def m_read_exact(e, c):
    p, r = reader(e, c)
    bp = c.av[1]
    buf = e.load(bp)
    n = ln(buf)
    s = stream_of(e, r)
    short = lt(ln(s), n)

    def ok():
        e.store(bp, take(s, n))
        e.store(p, drop(s, n))
        return Ok(UNIT)

    def bad():
        e.store(bp, mk("partial", s, buf))
        e.store(p, EMPTY)
        return Err(mk("ioerr", s, n))
    return e.fork([(Not(short), ok), (short, bad)])


def stream_of(e, r):
    if r.op == "adt" and r.a[0] == "CURSOR":
        return r.a[2]
    return r


@M("Cursor::new")
def m_cursor(e, c):
    return c.val(0)


@M("Read::read_to_end")
def m_read_to_end(e, c):
    p, r = reader(e, c)
    bp = c.av[1]
    buf = e.load(bp)
    s = stream_of(e, r)
    at = c.ty(0)
    e.store(bp, cat([mk("spr", buf), mk("spr", s)]))
    e.store(p, EMPTY)
    if infallible_reader(at):
        return Ok(ln(s))
    g = boolify(mk("readok", s))
    return select([(g, Ok(ln(s))), (Not(g), Err(mk("ioerr", s, ln(s))))])


@M("Read::read")
def m_read(e, c):
    p, r = reader(e, c)
    bp = c.av[1]
    buf = e.load(bp)
    s = stream_of(e, r)
    n = settype(mk("readn", s, ln(buf)), ("num", "usize"))
    e.store(bp, cat([mk("spr", take(s, n)), mk("spr", drop(buf, n))]))
    e.store(p, drop(s, n))
    at = c.ty(0)
    if infallible_reader(at):
        return Ok(n)
    g = boolify(mk("readok", s))
    return select([(g, Ok(n)), (Not(g), Err(mk("ioerr", s, n)))])


@M("Read::take")
def m_rtake(e, c):
    # `data.take(n)` over `&mut R`: the adaptor reads through to R
    p, r = reader(e, c)
    s = stream_of(e, r)
    n = c.val(1)
    t = clamptake(s, n)
    e.store(p, clampdrop(s, n))
    return t


@M("Read::by_ref", "Write::by_ref")
def m_rbyref(e, c):
    return c.av[0]


def infallible_reader(t):
    for _ in range(6):
        t = unref(t)
        if t is None:
            return False
        if t[0] == "adt" and t[1].split("::")[-1] in ("Take", "BufReader", "Chain"):
            t = t[2][0]
            continue
        return t[0] == "slice" or t[0] == "adt" and t[1].split("::")[-1] == "Cursor"
    return False


def infallible_writer(t):
    t = unref(t)
    return t is not None and (t[0] == "adt" and t[1] in ("alloc::vec::Vec", "alloc::string::String", "core::fmt::Formatter"))


def wresult(e, c, w, data, okv):
    if infallible_writer(c.ty(0)):
        return Ok(okv)
    g = boolify(mk("writeok", w, data))
    return select([(g, Ok(okv)), (Not(g), Err(mk("ioerr", w, data)))])


def writer(e, c):
    p = c.av[0]
    while p.op == "ptr" and e.load(p).op == "ptr":
        p = e.load(p)
    return p


@M("Write::write_all", "Write::write_str", "Formatter::write_str", "Formatter::pad", "Write::write_char")
def m_write_all(e, c):
    p = writer(e, c)
    w = e.load(p)
    data = c.val(1)
    if c.name.endswith("char"):
        data = lst([data])
    t = c.ty(0)
    if p.op == "ptr":
        e.store(p, cat([mk("spr", w), mk("spr", data)]) if w is not BOT else BOT)
    e.logcall("write_all", (w, data), UNIT)
    return wresult(e, c, w, data, UNIT)


@M("Write::write")
def m_write(e, c):
    p = writer(e, c)
    w = e.load(p)
    data = c.val(1)
    if p.op == "ptr":
        e.store(p, cat([mk("spr", w), mk("spr", data)]))
    n = ln(data)
    if not infallible_writer(c.ty(0)):
        # a general writer may accept fewer bytes; the modelled stream keeps what was offered
        n = settype(mk("written", w, data), ("num", "usize"))
    e.logcall("write", (w, data), UNIT)
    return wresult(e, c, w, data, n)


@M("Write::flush")
def m_flush(e, c):
    w = e.load(writer(e, c))
    e.logcall("flush", (w,), UNIT)
    return wresult(e, c, w, EMPTY, UNIT)


# ---------------------------------------------------------------- formatting
def decode_template(b):
    out, i = [], 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(("lit", bytes(b[i:i + x]).decode(errors="replace")))
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(("lit", bytes(b[i:i + n]).decode(errors="replace")))
            i += n
        else:
            opts = {}
            if x & 1:
                opts["flags"] = int.from_bytes(bytes(b[i:i + 4]), "little")
                i += 4
            if x & 2:
                opts["width"] = b[i] | b[i + 1] << 8
                i += 2
            if x & 4:
                opts["prec"] = b[i] | b[i + 1] << 8
                i += 2
            idx = None
            if x & 8:
                idx = b[i] | b[i + 1] << 8
                i += 2
            out.append(("arg", idx, tuple(sorted(opts.items()))))
    return out


@M("Arguments::new")
def m_args(e, c):
    t = c.val(0)
    a = c.val(1)
    l = as_list(t)
    if l is None or any(x.op != "int" for x in l):
        return None
    parts, nxt = [], 0
    for p in decode_template([x.a[0] for x in l]):
        if p[0] == "lit":
            parts.append(mk("spr", S(p[1])))
        else:
            i = p[1] if p[1] is not None else nxt
            nxt = i + 1
            x = nth(a, I(i))
            if p[2]:
                x = mk("fmtopt", str(p[2]), x)
            parts.append(mk("spr", x))
    return cat(parts) if parts else S("")


@M("Arguments::from_str", "Arguments::new_const")
def m_args_str(e, c):
    return c.val(0)


@M("Argument::new_display")
def m_disp(e, c):
    return display(e, c.av[0], c.subs[-1] if c.subs and c.subs[-1] is not None else c.ty(0))


def display(e, v, t):
    while v.op == "ptr":
        v = e.load(v)
    while t is not None and t[0] == "ref":
        t = t[2]
    t = unref(t)
    if v.op == "g":
        return apply(None, lambda x: display(e, x, t), v)
    if v is BOT:
        return v
    if v.op == "int" and t is not None and t[0] == "num":
        return S(str(v.a[0]))
    if v.op == "int" and t is not None and t[0] == "char":
        return S(chr(v.a[0]))
    if t is not None and t[0] == "char":
        return cat([one(v)])
    if v.op == "str" or is_strty(t) or v.op in ("cat",):
        return v
    if t is not None and t[0] == "adt" and t[1] == "core::fmt::Arguments":
        return v
    if t is not None and t[0] == "adt" and e.prog.adts.get(t[1], {}).get("local"):
        f = e.prog.find_impl("core::fmt::Display", t)
        if f is not None:
            bid = f[0]["items"].get("fmt")
            if bid in e.prog.bodies and bid not in e.stack:
                cell = e.newcell(S(""))
                e.inline(bid, f[1], [e.deep(v), mk("ptr", cell, ())], [("ref", False, t), ("ref", True, ("adt", "core::fmt::Formatter", ()))], None)
                r = e.st.pop(cell, BOT)
                return r
    return mk("disp", e.deep(v))


@M("Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_pointer", "Argument::new_octal", "Argument::new_binary", "Argument::new_lower_exp")
def m_dbg(e, c):
    k = c.name.split("_", 1)[1]
    return mk("fmt", k, c.val(0))


@M("fmt::format")
def m_format(e, c):
    return c.val(0)


@M("Formatter::write_fmt", "Write::write_fmt")
def m_write_fmt(e, c):
    return m_write_all(e, c)


@M("ToString::to_string", "SpecToString::spec_to_string")
def m_to_string(e, c):
    return display(e, c.av[0], c.subs[0] if c.subs and c.subs[0] is not None else c.at[0])


@M("Display::fmt", "Debug::fmt", "LowerHex::fmt")
def m_fmt(e, c):
    p = writer_at(e, c, 1)
    w = e.load(p)
    if c.trait and c.trait.endswith("Display"):
        x = display(e, c.av[0], c.subs[0] if c.subs else c.at[0])
    else:
        x = mk("fmt", "debug", c.val(0))
    if p.op == "ptr":
        e.store(p, cat([mk("spr", w), mk("spr", x)]))
    return Ok(UNIT)


def writer_at(e, c, i):
    p = c.av[i]
    while p.op == "ptr" and e.load(p).op == "ptr":
        p = e.load(p)
    return p


def m_dbgfin(e, c):
    p = c.av[0]
    w = e.load(p)
    if p.op == "ptr":
        e.store(p, cat([mk("spr", w)] + [mk("spr", mk("fmt", "debug", c.val(i))) for i in range(1, len(c.av))]))
    return Ok(UNIT)


for n in ("debug_struct_field1_finish", "debug_struct_field2_finish", "debug_struct_field3_finish", "debug_struct_field4_finish", "debug_struct_field5_finish", "debug_struct_fields_finish", "debug_tuple_field1_finish", "debug_tuple_field2_finish", "debug_tuple_field3_finish", "debug_tuple_fields_finish"):
    TABLE["Formatter::" + n] = m_dbgfin


@M("io::_print", "stdio::_print")
def m_print(e, c):
    e.logcall("print", (c.val(0),), UNIT)
    return UNIT


@M("io::_eprint", "stdio::_eprint")
def m_eprint(e, c):
    e.logcall("eprint", (c.val(0),), UNIT)
    return UNIT


# ---------------------------------------------------------------- panics
def m_panic(e, c):
    e.panic(TRUE, "panic", tuple(e.deep(a) for a in c.av))
    e.cur = FALSE
    return BOT


for n in ("panicking::panic", "panicking::panic_fmt", "panicking::assert_failed", "panicking::panic_display", "panicking::unreachable_display", "panicking::panic_explicit", "panicking::panic_nounwind", "rt::begin_panic", "panicking::panic_str_2015", "panicking::assert_matches_failed", "process::abort"):
    TABLE[n] = m_panic
TABLE["panicking::todo_default_msg"] = lambda e, c: S("not yet implemented")
TABLE["panicking::unimplemented_default_msg"] = lambda e, c: S("not implemented")


@M("intrinsics::unreachable", "hint::unreachable_unchecked")
def m_unreachable(e, c):
    e.cur = FALSE
    return BOT


@M("intrinsics::transmute")
def m_transmute(e, c):
    t = c.rt
    if t is not None and t[0] == "adt":
        a = e.prog.adts.get(t[1])
        if a is not None and a["kind"] == "enum" and all(not v["f"] for v in a["v"]):
            v = c.val(0)
            return select([(is_label(v, d if d is not None else i), adt(t[1], i)) for i, d in ((i, x["d"]) for i, x in enumerate(a["v"]))])
    return c.av[0]


# ---------------------------------------------------------------- futures
@M("Future::poll")
def m_poll(e, c):
    f = c.av[0]
    p = None
    n = 0
    while f.op == "ptr" and n < 6:
        p = f
        f = e.load(f)
        n += 1
    return adt(POLL, 0, await_(e, f, c.rt[2][0] if c.rt is not None and c.rt[0] == "adt" and c.rt[2] else None))


def await_(e, f, rt=None):
    if f.op == "g":
        return e.fork([(is_path(f, x), (lambda x=x: await_(e, x, rt))) for x in leaves(f) if x is not BOT])
    if f.op == "cor":
        bid = f.a[0]
        if bid in e.prog.bodies and bid not in e.stack:
            cell = e.newcell(f)
            return e.run_body(bid, f.a[1], [mk("ptr", cell, ()), mk("resume")])
        return settype(mk("await", e.deep(f)), rt)
    if f.op == "adt" and f.a[0] == "READY":
        return f.a[2]
    if f.op == "adt" and f.a[0] == "RETRY":
        # the outcome of the last of one or more tries
        x = await_(e, e.call_value(f.a[2], []))
        bad = e.payload(x, 1)
        return e.fork([(is_label(e.discr(x), 0), lambda: Ok(e.payload(x, 0))),
                       (is_label(e.discr(x), 1), lambda: Err(select([(is_label(e.discr(bad), i), e.payload(bad, i)) for i in (0, 1)])))])
    if f.op == "adt" and f.a[0] == "BLOCKING":
        x = e.call_value(f.a[2], [])
        o = settype(mk("await", e.deep(f)), rt or ("adt", RES, (("other", "T"), ("other", "JoinError"))))
        return select([(is_label(e.discr(o), 0), Ok(x)), (is_label(e.discr(o), 1), Err(e.payload(o, 1)))])
    r = settype(mk("await", e.deep(f)), rt)
    e.logcall("await", (e.deep(f),), r)
    return r


@M("future::retry_notify")
def m_retry(e, c):
    return adt("RETRY", 0, c.av[1])


@M("task::spawn_blocking", "blocking::spawn_blocking")
def m_blocking(e, c):
    return adt("BLOCKING", 0, c.av[0])


@M("future::get_context", "ready::ready")
def m_getctx(e, c):
    if c.name.endswith("ready"):
        return adt("READY", 0, c.av[0])
    return mk("cx")


# eq of a constructor against an opaque value goes through discriminant and fields
def expand_eq(a, b):
    e = engine.ENG
    if e is None:
        return None
    if a.op != "adt":
        a, b = b, a
    if a.op != "adt" or b.op in ("adt", "int", "cat", "str", "clo", "ptr"):
        return None
    p, v = a.a[0], a.a[1]
    if p in ("ITER", "LAZY", "ONCE"):
        return None
    r = TRUE
    ad = e.prog.adts.get(p)
    if ad is not None and ad["kind"] == "enum" or p in (OPT, RES):
        dom = e.prog.dom(("adt", p, ()))
        r = is_label(e.discr(b, ("adt", p, ())), e.prog.variant_discr(p, v))
        if len(a.a) == 2:
            return r
        bb = e.proj(b, ("v", v))
    else:
        bb = b
    for i, x in enumerate(a.a[2:]):
        r = And(r, eq(x, e.proj(bb, ("f", i))))
    return r


terms.EXPAND_EQ = expand_eq


# ---------------------------------------------------------------- facts about the libraries in use
def _opq(t, name):
    return t.op == "call" and t.a[0].endswith(name)


@M("RecoveryId::from_i32")
def m_recid(e, c):
    # from_i32(to_i32(id)) gives id back
    v = c.val(0)
    if _opq(v, "RecoveryId::to_i32"):
        return Ok(v.a[2][0])
    return None


@M("RecoverableSignature::from_compact")
def m_recsig(e, c):
    # from_compact undoes serialize_compact
    d, i = c.val(0), c.val(1)
    if d.op == "fld" and i.op == "fld" and d.a[0] is i.a[0] and d.a[1] == 1 and i.a[1] == 0 and _opq(d.a[0], "RecoverableSignature::serialize_compact"):
        return Ok(d.a[0].a[2][0])
    return None


def _okof(v, name):
    """the argument list of the library call that accepted v"""
    if v.op == "fld" and v.a[0].op == "as" and v.a[0].a[1] == 0 and _opq(v.a[0].a[0], name):
        return v.a[0].a[0].a[2]
    return None


@M("RecoverableSignature::serialize_compact")
def m_sercompact(e, c):
    # serialize_compact undoes from_compact
    a = _okof(c.val(0), "RecoverableSignature::from_compact")
    return tup(a[1], a[0]) if a is not None else None


@M("RecoveryId::to_i32")
def m_toi32(e, c):
    a = _okof(c.val(0), "RecoveryId::from_i32")
    return a[0] if a is not None else None


@M("Script::as_bytes", "Script::to_bytes", "Script::into_bytes")
def m_scriptbytes(e, c):
    v = c.val(0)
    if v.op == "conv" and v.a[0].endswith("::Script"):
        return v.a[1]
    if c.name.endswith("Script::as_bytes"):
        return None
    # one name for the bytes of a script
    return settype(mk("call", "bitcoin::blockdata::script::Script::as_bytes", None, (e.deep(v),)), ("slice", ("num", "u8")))


def _rr_recid(t):
    if _opq(t, "RecoveryId::to_i32"):
        return (0, 3)
    return None


terms.RANGE_RULES.append(_rr_recid)


def _rr_split(t):
    if t.op == "len" and t.a[0].op == "call" and t.a[0].a[0] == "str::split":
        return (1, 2**63 - 1)
    return None


terms.RANGE_RULES.append(_rr_split)


import models2
