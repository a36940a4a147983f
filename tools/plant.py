"""plant.py SPECS.py [ID...]: try planted bugs on /repo and keep the valid ones.

SPECS.py defines SEEDS: list of dicts id, property, file, edits [(old, new)],
demo (python source), needs, what.  For each: apply, demo must fail, the stable
tests must pass; undo, demo must pass.  Then the check of its property is run
with the patch."""
import json, os, subprocess, sys, runpy, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
specs = runpy.run_path(sys.argv[1])['SEEDS']
only = sys.argv[2:]
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    sh('git', '-C', '/repo', 'checkout', '--', '.')


assert not sh('git', '-C', '/repo', 'status', '--porcelain').stdout.strip(), 'repo not clean'
for s in specs:
    if only and s['id'] not in only:
        continue
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip())
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    try:
        r0 = sh('bash', d + '/demo.sh', cwd='/repo', timeout=300)
        p = '/repo/src/emva1288/' + s['file']
        t = open(p).read()
        for a, b, *last in s['edits']:
            if last:
                h, _, t = t.rpartition(a)
                t = h + b + t
                continue
            assert t.count(a) == 1, (s['id'], t.count(a), a)
            t = t.replace(a, b)
        open(p, 'w').write(t)
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git', '-C', '/repo', 'diff').stdout)
        r1 = sh('bash', d + '/demo.sh', cwd='/repo', timeout=300)
        sh('bash', '/opt/vp/test.sh', '/tmp/plant_t.json', timeout=900)
        o = json.load(open('/tmp/plant_t.json'))
        passed = set(o.get('passed') or [k for k, v in o.items() if v in ('pass', 'passed', True)])
        miss = stable - passed
        t0 = time.time()
        c = sh('python3-vt', V + '/check.py', s['property'], timeout=900)
        vio = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        failed = [l.strip() for l in c.stdout.splitlines() if l.startswith('  failed')]
        print('%-26s demo clean=%d patched=%d tests %s check=%d %s %.0fs %s' % (
            s['id'], r0.returncode, r1.returncode, 'ok' if not miss else 'BROKEN %s' % sorted(miss)[:3], c.returncode,
            'nf' if vio and 'no-failing' in vio[0] else '', time.time() - t0, failed[:3]), flush=True)
        if r0.returncode:
            print(r0.stderr[-500:])
    finally:
        clean()
