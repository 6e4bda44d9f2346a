import json,sys
def pl(p):
    s=f"_{p[0]}"
    for e in p[1]:
        if e=="deref" or e==["deref"]: s=f"*{s}"
        else: s+=f".{e}"
    return s
def op(o):
    if o[0] in("copy","move"): return o[0][0]+" "+pl(o[1])
    return "K"+json.dumps(o[1])[:160]
def rv(r):
    if r[0]=="use": return op(r[1])
    if r[0]=="agg": return f"agg {json.dumps(r[1])[:120]} ["+", ".join(map(op,r[2]))+"]"
    return " ".join(op(x) if isinstance(x,list) and x and x[0] in("copy","move","const") else (pl(x) if isinstance(x,list) and len(x)==2 and isinstance(x[0],int) else json.dumps(x)[:80]) for x in r)
def show(b):
    print("==",b["id"],b["kind"],"args",b["args"],"gens",b.get("gens"), b.get("root"))
    print("  names",b["names"])
    for i,bb in enumerate(b["blocks"]):
        if bb["cleanup"]: continue
        print(f" bb{i}:")
        for s in bb["s"]:
            print("   ",s[0],pl(s[1]),"=",rv(s[2]) if s[0]=="assign" else s[2:])
        t=bb["t"]
        if t[0]=="call":
            c=t[1]; print("    CALL",pl(t[3]),"=",c.get("name",c), json.dumps(c.get("res",{}).get("name")) , "(",", ".join(map(op,t[2])),") ->",t[4])
        else: print("   ",json.dumps(t)[:200])
if __name__=="__main__":
    d=json.load(open(sys.argv[1]))
    for b in d["bodies"]:
        if sys.argv[2] in b["id"]: show(b)
