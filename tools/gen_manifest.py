"""Writes /verif/MANIFEST.json from the contracts present."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dv import spec  # noqa: E402

# properties with no contract: the reason
NA = {}

checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if not os.path.exists(os.path.join(HERE, 'contracts', i.lower() + '.py')):
        na.append({'property': i, 'reason': NA.get(i, 'no contract written yet')})
        continue
    cs = spec.load(i)
    b = [c for c in cs if c.bounded]
    fun = sorted({t for c in cs for t in c.targets})
    ass = sorted({a for c in cs for a in c.assumes})
    if b:
        note = ('%d of %d contracts hold for all inputs; bounded in shape (labelled bounded, not counted as proved): %s. '
                % (len(cs) - len(b), len(cs), '; '.join('%s: %s' % (c.name, c.bounded) for c in b)))
    else:
        note = 'All %d contracts are discharged for all inputs and all iterations. ' % len(cs)
    note += 'Functions under contract: %s. ' % ', '.join(fun)
    note += ('Floats are treated as reals, division by zero is not modelled, the models of Python built-ins and numpy '
             'in dv/ are trusted (cross-checked by running every contract on the real code). ')
    if ass:
        note += 'Assumed: %s.' % '; '.join(ass)
    checks.append({'property': i, 'quick_cmd': 'VERIF_TIER=quick python3-vt check.py ' + i,
                   'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'contract-based deductive verification: contracts on the functions of /repo, '
                                'obligations generated from its current source, discharged by normalisation, Z3 and cvc5',
                   'level': 'other' if b else 'proof', 'level_note': note.strip()})
m = {'version': 1,
     'setup_cmd': 'python3-vt -c "import z3, cvc5, check; from dv import spec, verify" && '
                  '/opt/venv/bin/python -c "import numpy, scipy, lxml"',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the functions are read from /repo/src at every run. See DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', [x['property'] for x in na])
