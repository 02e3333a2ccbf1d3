"""python3-vt tools/dbg.py PROP fn 'obligation substring' : dumps the facts of an obligation (development aid)"""
import sys, os
sys.path.insert(0, "/verif/vc"); sys.path.insert(0, "/verif/contracts"); sys.setrecursionlimit(20000)
import importlib, z3, solve, ir, sym
from check import gen
from api import *
def get(prop, fn, sub):
    P = importlib.import_module(prop).PROPERTY
    for us in P.units:
        if fn not in us.verify: continue
        u = ir.extract(os.path.join(ir.REPO, us.src), list(us.verify), us.flags)
        for k, v in us.opts.items(): u.opts[k] = v
        cs = {}
        for c in us.build(u): cs.setdefault(c.q, []).append(c)
        lem = {}
        for l in (us.lemmas(u) if us.lemmas else []):
            l.sortof = u.sort; lem[l.name] = l
        for c in cs[fn]:
            for f in u.byname[fn]:
                if "body" not in f: continue
                ex = gen(u, cs, us, f, c, lem, "A")
                return ex, [o for o in ex.obls if sub in o.name]
if __name__ == "__main__":
    ex, os_ = get(*sys.argv[1:4])
    for o in os_:
        print("=====", o.name)
        for f in ex.facts[:o.facts][-int(sys.argv[4]) if len(sys.argv) > 4 else -30:]: print("FACT", f)
        print("GOAL", o.goal)
