#!/usr/bin/env python3
"""check.py Pxx [--tier quick|thorough]: decides one property on the current tree.

exit 0: holds on everything analysed; exit 1: a VIOLATION line per broken property;
exit 2: the analysis could not be carried out (tree does not compile, internal error).
"""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.setrecursionlimit(50000)
import threading
threading.stack_size(512 * 1024 * 1024)


def known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import prep
    mod = importlib.import_module(pid.lower())
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    out = os.path.join(ev, f"{pid}.json")
    rep = os.path.join(ev, f"{pid}.replay.json")
    for f in (out, rep):
        if os.path.exists(f):
            os.remove(f)
    import fw
    crates = []
    if getattr(mod, "SCOPE", "core") is not None:
        d = prep.dump(mod.SCOPE if hasattr(mod, "SCOPE") else "core")
        crates = sorted(d)
        prog = fw.engine.Prog(list(d.values()))
    else:
        prog = None
    c = fw.Ctx(prog, pid)
    c.tier = tier
    c.repo = prep.REPO
    for part in mod.PARTS:
        c.part(part)
    viol, seen = [], set()
    for v in c.viol:
        if v.key not in seen:
            seen.add(v.key)
            viol.append(v)
    kf = {k["key"]: k for k in known() if k["property"] == pid}
    new = []
    for v in viol:
        if v.key in kf:
            print(f"KNOWN-FINDING: property={pid} {kf[v.key]['what']}")
        else:
            new.append(v)
    ok = sum(1 for _, r in c.facts if r)
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "explanation": mod.__doc__.strip(),
            "rule": mod.RULE,
            "crates_analysed": crates,
            "obligations": len(c.facts), "discharged": ok,
            "checker_cmd": f"python3 lib/check.py {pid} --tier {tier}",
            "trusted_base": list(getattr(mod, "BASE", TRUST)) + list(getattr(mod, "TRUST", [])),
            "functions_analysed": len(c.functions),
            "functions": sorted(c.functions),
            "obligation_keys": [k for k, _ in c.facts],
            "undecided": c.undecided,
            "notes": c.notes,
        },
        "assumptions": list(getattr(mod, "ASSUME", [])),
        "violations": len(new), "wall_s": round(time.time() - t0, 2),
    }
    json.dump(doc, open(out, "w"), indent=1)
    if new:
        json.dump({"property": pid, "violations": [{"key": v.key, "where": v.where, "what": v.msg} for v in new]}, open(rep, "w"), indent=1)
        for v in new:
            print(f"  {v.key}\n    at {v.where}\n    {v.msg}")
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    print(f"{pid}: {ok}/{len(c.facts)} obligations discharged over {len(c.functions)} functions, {len(c.undecided)} undecided, {doc['wall_s']} s")
    return 0


TRUST = [
    "rustc's type checker and MIR construction (nightly in the sandbox), including the parts of the dependency graph it compiles",
    "the analyser in /verif/lib (term simplification, loop summaries, models of standard library functions)",
]

if __name__ == "__main__":
    rc = [2]

    def go():
        try:
            rc[0] = main()
        except SystemExit as e:
            rc[0] = e.code if isinstance(e.code, int) else 2
        except BaseException as e:
            print(f"check failed: {type(e).__name__}: {e}")
            traceback.print_exc()
            rc[0] = 2
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
