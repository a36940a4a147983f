#!/usr/bin/env python3-vt
"""check.py PROPERTY : decide one property on /repo's current source.

Exit 0: every contract of the property holds; exit 1 with a VIOLATION line
otherwise.  VERIF_TIER=quick|thorough, VERIF_SEED."""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
PY = '/opt/venv/bin/python'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

TRUSTED = [
    'dv/transform.py (mechanical source transformation: loops, comprehensions, displays, division, formatting and '
    'attribute writes call the engine; nothing is dropped)',
    'dv/engine.py, dv/values.py, dv/snp.py, dv/shims.py, dv/runtime.py (path exploration, loop rule, models of '
    'Python built-ins and numpy)',
    'dv/terms.py (normal forms: ring, sums, indicators), dv/smt.py (proof search, Z3 4.x and cvc5 as back ends)',
]
ASSUME = [
    'floating-point numbers are real numbers: no rounding, no overflow to infinity',
    'a division whose divisor is not shown to be zero is exact (1/0 is an unspecified real)',
    'logging and printing have no effect on results',
    'termination is not proved',
]


def concrete(args, timeout):
    env = dict(os.environ, PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    try:
        p = subprocess.run([PY, os.path.join(HERE, 'dv', 'concrete.py')] + [str(a) for a in args],
                           capture_output=True, text=True, timeout=timeout, env=env, cwd=HERE)
    except subprocess.TimeoutExpired:
        return {'status': 'timeout'}
    for line in reversed(p.stdout.strip().splitlines()):
        try:
            return json.loads(line)
        except ValueError:
            continue
    return {'status': 'error', 'detail': (p.stderr or p.stdout)[-1500:]}


def _child(prop, name, tier, workers, q):
    from dv import spec, verify
    sys.setrecursionlimit(20000)
    try:
        c = [x for x in spec.load(prop) if x.name == name][0]
        r = verify.verify(c, tier, workers)
    except BaseException as x:
        r = {'id': '%s.%s' % (prop, name), 'gen': 'unsupported', 'reason': 'verifier: %s: %s' % (type(x).__name__, x),
             'paths': 0, 'notes': [], 'gen_s': 0, 'obligations': [], 'small': [], 'failed': [], 'proved': False,
             'vacuous': None, 'wall': 0, 'modules': []}
        if os.environ.get('DV_TRACE'):
            traceback.print_exc()
    q.send(r)
    q.close()


def run_all(prop, cs, limit, fut=None):
    """one process per contract; shortly after a concrete failure of a contract
    the rest of its proof attempt is abandoned"""
    ctx = mp.get_context('fork')
    t0 = time.time()
    workers = max(2, 8 // max(1, min(len(cs), 4)))
    todo, running, res = list(cs), [], {}
    while todo or running:
        while todo and len(running) < 5:
            c = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(prop, c.name, TIER, workers, b))
            p.start()
            b.close()
            running.append((c, p, a))
        for x in list(running):
            c, p, a = x
            if a.poll(0.05):
                try:
                    res[c.name] = a.recv()
                except EOFError:
                    res[c.name] = None
                p.join()
                running.remove(x)
            elif time.time() - t0 > (20 if _failed(fut, c) else limit):
                subprocess.run(['pkill', '-P', str(p.pid)], capture_output=True)
                p.kill()
                p.join()
                res[c.name] = None
                running.remove(x)
    return res


def _failed(fut, c):
    f = (fut or {}).get(c.name)
    return f is not None and f.done() and not f.exception() and f.result().get('status') == 'fail'


def known():
    out = {}
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            d = json.load(f)
        for k in d.get('findings', []):
            out[(k['property'], k['contract'], k['clause'])] = k
    except FileNotFoundError:
        pass
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    from dv import spec
    cs = spec.load(prop)
    if not cs:
        print('no contract for', prop)
        return 2
    quick = TIER != 'thorough'
    rep = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rep, exist_ok=True)
    # the concrete runs go in the background
    import concurrent.futures as cf
    pool = cf.ThreadPoolExecutor(3)
    scale, secs = (1, 20) if quick else (8, 120)
    fut = {c.name: pool.submit(concrete, [prop, c.name, 'search', SEED, c.samples * scale, secs], secs + 120)
           for c in cs}
    res = run_all(prop, cs, 480 if quick else 3000, fut)
    conc = {n: f.result() for n, f in fut.items()}
    kn = known()
    violations, findings, undecided, notes = [], [], [], set()
    n_obl = n_dis = 0
    by, solver_s = {}, 0.0
    fun, table, bnd = [], [], []
    broken = False

    def violation(c, clause, data, found):
        path = os.path.join(rep, '%s.%s.json' % (prop, c.name))
        k = kn.get((prop, c.name, clause)) if found else None
        if k is not None and not k.get('fixed'):
            findings.append((c, clause, k))
            return
        with open(path, 'w') as f:
            json.dump(data, f, indent=1)
        violations.append((c, clause, path, found))

    for c in cs:
        r = res.get(c.name)
        k = conc[c.name]
        fun += c.targets
        if r is None:
            r = {'id': c.id, 'gen': 'unsupported', 'reason': 'verification ran out of time or memory', 'paths': 0,
                 'notes': [], 'obligations': [], 'small': [], 'failed': [], 'proved': False, 'vacuous': None, 'wall': 0}
        o, d = len(r['obligations']), sum(1 for x in r['obligations'] if x['status'] == 'proved')
        n_obl += o
        n_dis += d
        notes |= set(r['notes'])
        for x in r['obligations']:
            solver_s += x['s']
            if x['status'] == 'proved':
                for t in x['by']:
                    by[t] = by.get(t, 0) + 1
        table.append({'contract': c.id, 'functions': c.targets, 'obligations': o, 'discharged': d, 'paths': r['paths'],
                      'proved': r['proved'], 'bounded': c.bounded, 'undecided': r['reason'] or r['failed'] or None,
                      'vacuous': r['vacuous'], 'concrete': {a: k.get(a) for a in ('status', 'ran', 'distinct', 'skipped')},
                      'small': [{a: s[a] for a in ('sizes', 'gen', 'n', 'proved')} for s in r['small']], 's': r['wall']})
        if r['vacuous']:
            print('VACUOUS contract', c.id)
            broken = True
        if k['status'] == 'error' or (k['status'] == 'ok' and k['ran'] == 0):
            print('concrete run of %s: %s' % (c.id, k.get('detail', 'no input satisfies the precondition')))
            broken = True
        if k['status'] == 'fail':
            violation(c, k['clause'], {'property': prop, 'contract': c.name, 'seed': k['seed'], 'clause': k['clause'],
                                       'detail': k['detail'], 'inputs': k['inputs'],
                                       'unproved obligations': r['failed'], 'reason': r['reason'],
                                       'how': 'cd /verif && %s dv/concrete.py %s %s again <this file>' % (PY, prop, c.name)},
                      True)
            continue
        if r['proved']:
            continue
        # counterexamples, replayed against the real code
        cands = []
        for s in r['small']:
            for x in s['refuted']:
                cands.append((x, s))
        for x in r['obligations']:
            if x['status'] == 'refuted' and x.get('given'):
                cands.append((x, None))
        hit = None
        for x, s in cands[:12]:
            if not x.get('given'):
                continue
            f = os.path.join(rep, '%s.%s.model.json' % (prop, c.name))
            with open(f, 'w') as h:
                json.dump({'given': x['given'], 'seed': SEED}, h)
            q = concrete([prop, c.name, 'replay', f], 60 if time.time() - t0 < 700 or not quick else 3)
            if q.get('status') == 'fail':
                hit = (x, q)
                break
        if hit:
            x, q = hit
            violation(c, q['clause'], {'property': prop, 'contract': c.name, 'seed': SEED, 'given': x['given'],
                                       'clause': q['clause'], 'detail': q['detail'], 'inputs': q['inputs'],
                                       'obligation': x['name'],
                                       'how': 'cd /verif && %s dv/concrete.py %s %s again <this file>' % (PY, prop, c.name)},
                      True)
            continue
        exact = [(x, s) for s in r['small'] for x in s['refuted']]
        if exact:
            x, s = exact[0]
            violation(c, x['name'], {'property': prop, 'contract': c.name, 'obligation': x['name'], 'goal': x['goal'],
                                     'sizes': s['sizes'], 'model': x['given'], 'verifier': r['obligations']}, False)
            continue
        # no verdict from the verifier: a longer concrete search, and if the
        # obligations were generated but resist also on the small instances,
        # the failed obligation is the report
        left = (760 - (time.time() - t0)) if quick else 1e9
        k2 = concrete([prop, c.name, 'search', SEED + 7919, c.samples * 12 * scale, 45 if quick else 240],
                      max(5, min(400, left)))
        if k2['status'] == 'fail':
            violation(c, k2['clause'], {'property': prop, 'contract': c.name, 'seed': k2['seed'], 'clause': k2['clause'],
                                        'detail': k2['detail'], 'inputs': k2['inputs'],
                                        'unproved obligations': r['failed'], 'reason': r['reason'],
                                        'how': 'cd /verif && %s dv/concrete.py %s %s again <this file>' % (PY, prop, c.name)},
                      True)
            continue
        k['ran'] = (k.get('ran') or 0) + (k2.get('ran') or 0)
        open_ = [s for s in r['small'] if s['gen'] == 'ok' and s['unknown']]
        if r['gen'] == 'ok' and r['failed'] and open_ and not c.soft:
            violation(c, r['failed'][0], {'property': prop, 'contract': c.name, 'obligation': r['failed'][0],
                                          'unproved obligations': r['failed'], 'sizes': open_[0]['sizes'],
                                          'verifier': r['obligations']}, False)
            continue
        undecided.append((c, r))
        bnd.append({'contract': c.id, 'why': r['reason'] or ('not discharged: ' + '; '.join(r['failed'][:6])),
                    'symbolic instances': [{a: s[a] for a in ('sizes', 'gen', 'reason', 'n', 'proved', 'unknown')}
                                           for s in r['small']],
                    'concrete inputs': k.get('ran')})
    level = 'proof' if n_obl and n_obl == n_dis and not undecided and not any(c.bounded for c in cs) else 'other'
    cov = {'obligations': n_obl, 'discharged': n_dis,
           'checker_cmd': 'cd /verif && python3-vt check.py %s' % prop,
           'trusted_base': TRUSTED + sorted(notes) + sorted({t for c in cs for t in c.trust}),
           'functions_under_contract': sorted(set(fun)), 'back_ends': by, 'solver_seconds': round(solver_s, 2),
           'contracts': table, 'bounded_stand_ins': bnd,
           'evaluations': sum(k.get('ran') or 0 for k in conc.values()),
           'distinct_nontrivial': sum(k.get('distinct') or 0 for k in conc.values()),
           'rule': 'cross-check of the contracts on the real code (does not decide): inputs drawn by each contract; '
                   'non-trivial = inside the precondition; distinct by value',
           'samples': [{'contract': n, 'inputs': _short(k.get('sample'))} for n, k in conc.items()][:3],
           'explanation': 'contracts on the functions of /repo, obligations generated from the current source by '
                          'symbolic execution with inferred loop invariants and discharged by normalisation, Z3 and '
                          'cvc5; contracts marked bounded cover only the shapes they state'}
    ev = {'property': prop, 'tier': 'thorough' if TIER == 'thorough' else 'quick', 'seed': SEED, 'level': level,
          'coverage': cov, 'assumptions': ASSUME + sorted({a for c in cs for a in c.assumes}),
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for c, clause, k in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for t in table:
        print('%-40s obligations %d/%d %s%s %.1fs' % (
            t['contract'], t['discharged'], t['obligations'], 'PROVED' if t['proved'] else 'undecided',
            ' (bounded shape)' if t['bounded'] else '', t['s']))
    for c, r in undecided:
        print('UNDECIDED %s: %s' % (c.id, r['reason'] or '; '.join(r['failed'][:4])))
        for s in r['small']:
            print('   bounded stand-in %s: %s %d/%d proved%s' % (s['sizes'], s['gen'], s['proved'], s['n'],
                                                                ' (%s)' % s['reason'] if s['reason'] else ''))
    for c, clause, path, found in violations:
        print('  failed: %s: %s' % (c.id, clause))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
    print('%s: %d/%d obligations discharged, %.1f s' % (prop, n_dis, n_obl, time.time() - t0))
    if violations:
        return 1
    return 2 if broken else 0


def _short(x):
    s = json.dumps(x)
    return x if len(s) < 1500 else s[:1500]


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        # the same order of sets, and so the same proof search, on every run
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
    sys.exit(main())
