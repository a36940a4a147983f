"""dbg.py PROP CONTRACT [small json]: print undischarged obligations"""
import os, sys, json, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
os.environ.setdefault('DV_TRACE', '1')
from dv import spec, verify, smt, terms as tm
c = [x for x in spec.load(sys.argv[1]) if x.name == sys.argv[2]][0]
sm = json.loads(sys.argv[3]) if len(sys.argv) > 3 else None
t0 = time.time()
g = verify.generate(c, sm, 120)
print('gen', g['status'], g['reason'], 'paths', g['paths'], 'obls', len(g['obls']), '%.1fs' % (time.time() - t0))
from dv import engine
for k, v in sorted(engine.BR_LOG.items(), key=lambda x: -len(x[1]))[:25]:
    print('BR', len(v), k, '\n      ', v[0])
for o in g['obls'] if not os.environ.get('DV_BRANCHES') else []:
    r, p, s = verify.prove_obl(o, 25.0, 8.0)
    print(o['name'], r, p if r == 'proved' else '', '%.1fs' % s, flush=True)
    if r != 'proved':
        for h in o['hyps']:
            print('    H', tm.show(h)[:int(os.environ.get('DV_LEN','600'))])
        print('    G', tm.show(o['goal'])[:1500])
        if r == 'refuted' and p.model:
            print('    model', {n: (smt.model_value(p.model, d[1])) for n, d in g['inputs'].items() if d[0] in ('I','R')}, p.exact_model)
