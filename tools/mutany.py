#!/usr/bin/env python3
"""mutany.py FILE [indices]: PROPS, and MUTS of (file, [(old, new)...], expect): which of the properties' checks
fire on a scratch copy; expect 1: at least one, 0: none"""
import sys, subprocess, os
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
R = "/tmp/m/r"
LIB = os.environ.get("VLIB", "/verif/lib")
only = sys.argv[2:]
for i, (f, eds, exp) in enumerate(ns["MUTS"]):
    if only and str(i) not in only: continue
    p = f"{R}/{f}"; s = open(p).read(); t = s
    for old, new in eds:
        if t.count(old) < 1: print(i, "NOT FOUND", f, old[:50])
        t = t.replace(old, new, 1)
    open(p, "w").write(t)
    try:
        env = dict(os.environ, VERIF_REPO=R)
        subprocess.run(["python3", LIB+"/prep.py", ns.get("SCOPE", "romeo")], env=env, capture_output=True)
        run = lambda pr: (pr, subprocess.run(["python3", LIB+"/check.py", pr], env=env, capture_output=True, text=True))
        rs = list(ThreadPoolExecutor(8).map(run, ns["PROPS"].split()))
        hit = [pr for pr, r in rs if r.returncode]
        ok = "OK " if bool(hit) == bool(exp) else "BAD"
        print(ok, i, "want", exp, hit, repr(eds[0][1][:70]), flush=True)
        if rs and all("could not compile" in r.stdout for _, r in rs):
            print("      COMPILE ERROR", " | ".join(l for l in rs[0][1].stdout.split("\n") if "error" in l or "-->" in l)[:900]); continue
        for pr, r in rs:
            ln = [l for l in r.stdout.split("\n") if l.startswith("  ")]
            if (ok == "BAD" and r.returncode) or os.environ.get("SHOW"): print("     ", pr, " | ".join(x.strip() for x in ln[:6])[:400])
            if r.returncode not in (0, 1) or "compile" in r.stdout[:200]: print("     ", pr, (r.stdout[-200:] + r.stderr[-150:]).replace("\n", " "))
    finally:
        open(p, "w").write(s)
