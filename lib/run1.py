import sys, time
sys.path.insert(0, "/verif/lib")
import prep, engine, terms
from terms import *
def load(which="core"):
    return engine.Prog(list(prep.dump(which).values()))
def sym_args(e, bid, subs=()):
    b = e.prog.bodies[bid]
    out = []
    names = {}
    for n, pl in b["names"]:
        if not pl[1]: names.setdefault(pl[0], n)
    for i in range(b["args"]):
        ty = engine.tsub(e.prog.ltypes(b)[i+1], subs)
        nm = names.get(i+1, f"a{i}")
        t = ty
        ref = False
        while t is not None and t[0] == "ref":
            ref = ref or t[1]
            t = t[2]
        s = mk("sym", nm, t)
        if t == ("bool",): s = boolify(s)
        if ref:
            c = ("in", nm)
            e.st[c] = s
            s = mk("ptr", c, ())
        out.append(s)
    return out
if __name__ == "__main__":
    p = load()
    for k in sys.argv[1:]:
        for bid in sorted(p.bodies):
            if k in bid and p.bodies[bid]["kind"] in ("fn", "method"):
                e = engine.Engine(p)
                t0 = time.time()
                try:
                    r = e.run_body(bid, (), sym_args(e, bid))
                    r = e.deep(r)
                    print("==", bid, "%.2fs" % (time.time()-t0), "steps", e.steps)
                    for l, x in paths(gate(e.cur, r), 60):
                        print("  ", [f"{show(v)}={l2}" for v, l2 in l], "\n      =>", show(x))
                    for c in e.st:
                        if c[0] == "in": print("   after", c, show(e.st[c]))
                    for o in e.obl: print("   !", o.kind, o.name, o.site, o.args, show(o.guard))
                    print("   opaque", e.opaque_seen)
                except Exception as ex:
                    import traceback
                    print("==", bid, "EXC", repr(ex)); traceback.print_exc(limit=-6)
