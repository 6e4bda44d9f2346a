"""mkseed.py FILE: makes seeded/<id>/ folders from a python list of dicts:
id, property, file, old, new (or edits=[(file,old,new)]), demo (rust main body), needs, breaks"""
import sys, os, json, subprocess, shutil
V = "/verif"
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    d = f"{V}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    ed = s.get("edits") or [(s["file"], s["old"], s["new"])]
    for f, o, n in ed:
        p = f"/repo/{f}"
        t = open(p).read()
        assert t.count(o) == 1, (s["id"], f, t.count(o))
        open(p, "w").write(t.replace(o, n))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    open(f"{d}/patch.diff", "w").write(diff)
    if "demo" in s:
        open(f"{d}/demo.rs", "w").write(s["demo"])
        shutil.copy(f"{V}/tools/demo.tmpl.sh", f"{d}/demo.sh")
    if "sh" in s:
        open(f"{d}/demo.sh", "w").write(s["sh"])
    for n, t in s.get("files", {}).items():
        os.makedirs(os.path.dirname(f"{d}/{n}"), exist_ok=True)
        open(f"{d}/{n}", "w").write(t)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
