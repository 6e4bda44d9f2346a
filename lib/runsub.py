"""debug: runsub <substr> summaries with id listing; -l lists"""
import sys; sys.path.insert(0,'/verif/lib')
from run1 import *
p=load()
for bid in sorted(p.bodies):
    b=p.bodies[bid]
    if all(k in bid or k in b["name"] for k in sys.argv[1:]): print(b["kind"],bid,"|",b["name"],b["args"],b["ngen"])
