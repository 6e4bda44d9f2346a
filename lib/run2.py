import sys; sys.path.insert(0,'/verif/lib')
from run1 import *
from dag import dag
import engine
p=load()
for k in sys.argv[1:]:
    for bid in sorted(p.bodies):
        if k in bid and p.bodies[bid]["kind"] in ("fn","method"):
            e=engine.Engine(p); t0=time.time()
            r=e.deep(e.run_body(bid,(),sym_args(e,bid)))
            print("==",bid,"%.2fs"%(time.time()-t0))
            print(dag(gate(e.cur,simp(e.cur,r)))); 
            for l in leaves(r): print('  LEAF',show(l)[:1500])
            for c in e.st:
                if c[0]=="in": print("   after",c,show(e.st[c])[:600])
            for o in e.obl: print("   !",o.kind,o.name,o.site,show(o.args)[:200],"\n"+dag(o.guard))
            print("opaque",e.opaque_seen)
