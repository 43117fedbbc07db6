"""Writes spec/Catalog.tla from tools/catalog.py."""
import os
from catalog import *

def fn(d):
    return "( " + " @@ ".join("%d :> %s" % (k, v) for k, v in sorted(d.items())) + " )"

def st(x):
    return "{" + ", ".join(map(str, x)) + "}"

def text():
    al = {r: c for r, c in CAT.items()}
    for r, c in IDLE_CAT.items():
        al[r] = dict(k=-1, g=c["g"], p=c["p"], pr=NORMAL, inl=0, buf=c["buf"], once=0, sc=0)
    o = ["------------------------------ MODULE Catalog ------------------------------",
         "(* Generated by tools/mkcatalog.py from tools/catalog.py: the reactions that the driver drivers/sched.cpp can bind *)",
         "EXTENDS Integers, TLC",
         "MAIN == %d  DPOOL == %d  P1 == %d  P2 == %d  PP == %d  PN == %d" % (MAIN, DEF, P1, P2, PP, PN),
         "Groups == " + st(sorted(GROUP_CAP)), "GroupCap == " + fn(GROUP_CAP), "PoolConc == " + fn(POOL_CONC),
         "Reactions == " + st(sorted(al)), "IdleReactions == " + st(sorted(IDLE_CAT)),
         "IWatch == " + fn({r: c["watch"] for r, c in IDLE_CAT.items()})]
    for n, k in (("RKind", "k"), ("RPool", "p"), ("RPrio", "pr"), ("RInl", "inl"), ("RBuf", "buf"), ("ROnce", "once"), ("RScope", "sc")):
        o.append(n + " == " + fn({r: c[k] for r, c in al.items()}))
    o.append("RGroups == " + fn({r: st(c["g"]) for r, c in al.items()}))
    o.append("=" * 77)
    return "\n".join(o) + "\n"

if __name__ == "__main__":
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Catalog.tla")
    open(p, "w").write(text())
