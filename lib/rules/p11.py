"""Abstract interpretation of every writer on an arbitrary destination, which may refuse any write or take
only a part of it. Success must imply that every write that was reached succeeded and was taken whole, the
destination then holds what it held before and the encoding, and no panic site can be reached."""
from fw import *
import spec
import p01
import p02

LEVEL = "other"
RULE = "for every writer and destination: returns (no reachable panic); Ok implies each write reached succeeded and took all its bytes; on Ok the destination has grown by exactly the encoding"
ASSUME = ["a contract name was made by its constructor (P08)"]

W = ("param", 90, "W")


def known(s):
    """the writes of a run, with the condition under which each is reached"""
    return [r for r in s.log if r.name in ("write", "write_all", "flush")]


def write_check(c, s, before, enc, k, valid):
    w = s.where()
    n = 0
    for r in known(s):
        if r.args[0].op == "cat" and not any(x is before for x in subterms(r.args[0])):
            continue  # into memory, which takes everything
        n += 1
        d, data = (r.args + (EMPTY,))[:2]
        ok = boolify(mk("writeok", d, data))
        c.implies(Ands([valid, s.ok, r.guard]), ok, f"{k}:reported", r.site, "a write that the destination refused goes unreported")
        if r.name == "write":
            whole = eq(settype(mk("written", d, data), ("num", "usize")), ln(data))
            c.implies(Ands([valid, s.ok, r.guard]), whole, f"{k}:whole", r.site, "a write of which the destination took a part goes unreported")
    c.fact(n > 0, f"{k}:writes", w, "no write to the destination is found")
    if enc is not None:
        g = And(valid, s.ok)
        c.same(g, norm(simp(g, s.cell(1))), norm(cat([mk("spr", before), mk("spr", simp(valid, enc))])), f"{k}:all", w, "on success the destination has not received exactly the encoding")
    p01.check(c, s, k, valid)


def writers(c):
    for im in p02.implementors(c):
        for env in p01.instances(c, im):
            t = p01.inst(im["self"], env)
            k = ":".join(["write", p01.short(t)] + [str(x[1]) for x in env.values()])
            bid, subs = c.method(spec.CODEC, t, "codec_serialize", (), extra=(W,))
            x = eta(c.prog, mk("sym", "x", t), t)
            valid = p02.valid(c, x)
            dest = mk("sym", "dest", BYTES)
            s = c.run(bid, [x, ("mut", dest)], subs=subs)
            m = c.run(bid, [x, ("mut", EMPTY)], subs=c.method(spec.CODEC, t, "codec_serialize", (), extra=(VECU8,))[1])
            c.implies(valid, m.ok, f"{k}:memory", m.where(), "writing into memory fails")
            write_check(c, s, dest, m.cell(1), k, valid)
            # the convenience methods
            bid2, subs2 = c.method(spec.CODEC, t, "serialize", (), extra=(W,))
            s2 = c.run(bid2, [x, ("mut", dest)], subs=subs2)
            write_check(c, s2, dest, m.cell(1), k.replace("write", "serialize", 1), valid)
            bid3, subs3 = c.method(spec.CODEC, t, "serialize_to_vec", ())
            s3 = c.run(bid3, [x], subs=subs3)
            p01.check(c, s3, k.replace("write", "to-vec", 1), valid)
            g = And(valid, s3.cur)
            c.same(g, norm(simp(g, s3.ret)), norm(simp(g, m.cell(1))), k.replace("write", "to-vec", 1), s3.where(), "the vector is not the encoding")


def numbers(c):
    for n in (4, 8):
        t = ("adt", spec.UINT, (("cval", n),))
        x = mk("sym", "x", t)
        limbs = settype(c.core_of(x), ("array", ("num", "u64"), ("cval", n)))
        for m, o in (("to_be_bytes", "be"), ("to_le_bytes", "le")):
            s = c.run(c.fn(spec.UINT + "::" + m), [x], subs=(("cval", n),))
            want = cat([mk("spr", models.ibytes(o, 8, nth(limbs, I(n - 1 - i if o == "be" else i)))) for i in range(n)])
            c.same(s.cur, s.ret, want, f"Uint{n}:{m}", s.where(), "the bytes are not those of the number")
            p01.check(c, s, f"Uint{n}:{m}", TRUE)


PARTS = [writers, numbers]
