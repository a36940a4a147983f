"""dbgl.py PROP CONTRACT OBLNAME [n]: lengths and heads of hypotheses and goal"""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from dv import spec, verify, smt, terms as tm
c = [x for x in spec.load(sys.argv[1]) if x.name == sys.argv[2]][0]
g = verify.generate(c, None, 120)
n = int(sys.argv[4]) if len(sys.argv) > 4 else 200
for o in g['obls']:
    if o['name'] == sys.argv[3]:
        for h in o['hyps']:
            s = tm.show(h); print('H', len(s), s[:n])
        for v, t in o.get('defs') or []:
            s = tm.show(t); print('D', tm.show(v), len(s), s[:n])
        s = tm.show(o['goal']); print('G', len(s), s[:n])
        print()
