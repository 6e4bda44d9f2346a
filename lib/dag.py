"""print a guarded value as a DAG"""
from terms import *
def dag(t, lim=200):
    ids={}; out=[]
    def go(t):
        if t.op!="g": return show(t)[:int(lim)]
        if t in ids: return f"@{ids[t]}"
        ids[t]=len(ids); n=ids[t]
        v,cs,df=t.a
        line=f"@{n}: {show(v)[:lim]} ?"
        i=len(out); out.append(None)
        out[i]=line+"".join(f"\n      {l} -> {go(c)}" for l,c in cs)+(f"\n      _ -> {go(df)}" if df is not None else "")
        return f"@{n}"
    r=go(t)
    return "\n".join(out) if out else r
