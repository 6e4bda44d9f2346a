import sys, time, signal; sys.path.insert(0,'/verif/lib')
from run1 import *
import engine
p=load(sys.argv[1] if len(sys.argv)>1 else "core")
class TO(Exception): pass
def h(*a): raise TO()
signal.signal(signal.SIGALRM,h)
tot=0
for bid in sorted(p.bodies):
    b=p.bodies[bid]
    if b["kind"] not in ("fn","method"): continue
    if b.get("impl") is not None and p.impl_by_id.get(b["impl"],{}).get("derived"): continue
    e=engine.Engine(p); t0=time.time()
    signal.alarm(20)
    try:
        r=e.run_body(bid,(),sym_args(e,bid)); r=e.deep(r)
        s="ok"
    except TO: s="TIMEOUT"
    except RecursionError as ex: s="RECURSION"
    except Exception as ex: s="EXC "+repr(ex)[:100]
    signal.alarm(0)
    dt=time.time()-t0
    tot+=1
    if s!="ok" or dt>2: print("%-9s %5.1fs %s"%(s,dt,bid))
print(tot)
