#!/usr/bin/env python3
"""mut.py FILE: list MUTS of (prop(s), file, old, new, expect) ; runs checks on a scratch copy"""
import sys, subprocess, os
ns={}
exec(open(sys.argv[1]).read(), ns)
R="/tmp/m/r"
only=sys.argv[2:] 
for i,(props,f,old,new,exp) in enumerate(ns["MUTS"]):
    if only and str(i) not in only: continue
    p=f"{R}/{f}"; s=open(p).read()
    if s.count(old)<1: print(i,"NOT FOUND",f,old[:50]); continue
    open(p,"w").write(s.replace(old,new,1))
    try:
        for pr in props.split():
            r=subprocess.run(["python3","/verif/lib/check.py",pr],env=dict(os.environ,VERIF_REPO=R),capture_output=True,text=True)
            ok = "OK " if r.returncode==exp else "BAD"
            if os.environ.get("SHOW"): subprocess.run(["/tmp/showv.sh",pr,os.environ["SHOW"]])
            ln=[l for l in r.stdout.split("\n") if l.startswith("  ") and not l.startswith("    ")]
            print(ok,i,pr,"rc",r.returncode,"want",exp,repr(new[:60]),(";".join(x.strip() for x in ln))[:150], flush=True)
            if r.returncode==2 or "compile" in r.stdout[:200]: print(r.stdout[-600:], r.stderr[-600:])
    finally:
        open(p,"w").write(s)
