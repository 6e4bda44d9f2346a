import sys, time; sys.path.insert(0,'/verif/lib')
from run1 import *
import engine
p=load()
seen={}
for bid in sorted(p.bodies):
    b=p.bodies[bid]
    if b["kind"] not in ("fn","method"): continue
    e=engine.Engine(p)
    r=e.run_body(bid,(),sym_args(e,bid))
    for o in e.obl:
        k=(o.fn[-1],o.site,o.name)
        seen.setdefault(k,[]).append((bid,o))
for k,v in sorted(seen.items()):
    bid,o=min(v,key=lambda x:len(x[1].fn))
    print(k[0].split("::",1)[1],k[1].split("/")[-1],k[2],"| from",len(v),"|",show(o.args)[:140],"| nodes",sum(1 for x in subterms(o.guard) if x.op=="g"))
