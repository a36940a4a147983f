"""Generate and discharge the obligations of one contract."""
import multiprocessing as mp
import os
import time
import traceback
from fractions import Fraction
from . import terms as tm
from . import engine as eng
from . import smt
from . import values as V
from . import runtime
from . import world
from .symctx import SymCtx, _own
from .engine import Unsupported, Infeasible, Budget
from .terms import TRUE, FALSE

_JOBS = []


def generate(c, small=None, seconds=60):
    """symbolic execution of the contract on the current source: obligations"""
    e = eng.Engine(deadline=time.time() + seconds, small=small is not None)
    eng.set_engine(e)
    e.overflow = c.overflow
    V.TOUCH.clear()
    eng.frozen_objs.clear()
    runtime._births.clear()
    runtime._cells.clear()
    smt_ctx = {}
    out = {'status': 'ok', 'reason': None, 'paths': 0}
    ctxs = []
    reach = []

    def go():
        ctx = SymCtx(e, w, small)
        ctxs.append(ctx)
        try:
            c.fn(ctx)
        except Exception as x:
            _own(x)
            e.oblige('contract evaluation (%s: %s)' % (type(x).__name__, str(x)[:120]), FALSE, 'exc')
            if os.environ.get('DV_TRACE'):
                traceback.print_exc()
        reach.append(list(e.hyps()))
    t0 = time.time()
    try:
        w = world.World()
        outs = e.explore(go)
        out['paths'] = len(outs)
    except Unsupported as u:
        out['status'], out['reason'] = 'unsupported', str(u)
        if os.environ.get('DV_TRACE'):
            traceback.print_exc()
    except Budget:
        out['status'], out['reason'] = 'unsupported', 'path exploration ran out of time'
    except RecursionError:
        out['status'], out['reason'] = 'unsupported', 'recursion limit'
    except SyntaxError as x:
        out['status'], out['reason'] = 'unsupported', 'source does not compile: %s' % x
    except Exception as x:
        out['status'], out['reason'] = 'unsupported', 'verifier: %s: %s' % (type(x).__name__, x)
        if os.environ.get('DV_TRACE'):
            traceback.print_exc()
    out['obls'] = [e.obls[k] for k in e.order]
    out['gen_s'] = time.time() - t0
    out['notes'] = sorted(e.notes)
    out['inputs'] = {}
    for x in ctxs:
        out['inputs'].update(x.inputs)
    out['reach'] = reach
    out['modules'] = sorted(world._code)
    return out


def prove_obl(o, budget, z3t):
    """large scalars are named: first for all values of the names, then with
    their definitions in place"""
    d = o.get('defs')
    if d:
        terms = [o['goal']] + list(o['hyps'])
        tot = 0.0
        left = list(reversed(d))
        for step in range(4):
            r, p, s = smt.prove(terms[1:], terms[0], budget / 4, z3t / 2)
            tot += s
            if r == 'proved':
                return r, p, tot
            # unfold the latest name of the goal
            k = next((i for i, (v, t) in enumerate(left) if v in terms[0].fv), None)
            if k is None:
                break
            v, t = left.pop(k)
            terms = [tm.subst(x, {v: t}) if v in x.fv else x for x in terms]
        for v, t in left:
            terms = [tm.subst(x, {v: t}) if v in x.fv else x for x in terms]
        r, p, s = smt.prove(terms[1:], terms[0], budget, z3t)
        return r, p, s + tot
    return smt.prove(o['hyps'], o['goal'], budget, z3t)


_AGAIN = 0


def _prove(k):
    o, budget, z3t, inputs = _JOBS[k]
    t0 = time.time()
    smt.RSEED, smt.SLACK = _AGAIN, 1 + _AGAIN
    if _AGAIN:
        o = dict(o, hyps=list(reversed(o['hyps'])) if _AGAIN % 2 else o['hyps'])
    try:
        r, p, s = prove_obl(o, budget, z3t)
    except Exception as x:
        return k, 'unknown', ['error %s: %s' % (type(x).__name__, x)], time.time() - t0, None
    if r == 'proved':
        return k, r, p, s, None
    given = None
    if r == 'refuted' and inputs is not None:
        try:
            given = extract(p.model, inputs)
        except Exception as x:
            given = None
    return k, r, [], s, given


def discharge(obls, budget, z3t, inputs=None, workers=4, deadline=None):
    """prove every obligation; list of (status, tags, seconds, model).
    What is left open is tried again, with other solver seeds"""
    global _AGAIN
    res = _discharge(obls, budget, z3t, inputs, workers, deadline)
    try:
        for _AGAIN in (1, 2):
            k = [i for i, r in enumerate(res) if r[0] == 'unknown' and r[1] != ['not attempted']]
            if not k or len(k) > 6 or (deadline and time.time() + 3 > deadline):
                break
            for i, r in zip(k, _discharge([obls[i] for i in k], budget, z3t, inputs, max(workers, 1), deadline)):
                if r[0] == 'proved' or (r[0] == 'refuted' and r[3] is not None):
                    res[i] = r
    finally:
        _AGAIN = 0
    return res


def _discharge(obls, budget, z3t, inputs=None, workers=4, deadline=None):
    global _JOBS
    _JOBS = [(o, budget, z3t, inputs) for o in obls]
    n = len(obls)
    res = [('unknown', ['not attempted'], 0.0, None)] * n
    if not n:
        return res
    if n == 1 or workers <= 1:
        for k in range(n):
            if deadline and time.time() > deadline:
                break
            r = _prove(k)
            res[k] = r[1:]
        return res
    ctx = mp.get_context('fork')
    with ctx.Pool(min(workers, n)) as pool:
        it = [pool.apply_async(_prove, (k,)) for k in range(n)]
        for k, a in enumerate(it):
            try:
                left = max(0.5, (deadline - time.time()) if deadline else budget * 20)
                r = a.get(left)
                res[r[0]] = r[1:]
            except mp.TimeoutError:
                pass
            except Exception as x:
                res[k] = ('unknown', ['error %s' % x], 0.0, None)
        pool.terminate()
    return res


def extract(me, inputs):
    """inputs of the counterexample"""
    given = {}
    for name, d in inputs.items():
        if d[0] == 'const':
            given[name] = d[1]
        elif d[0] in ('I', 'R'):
            v = smt.model_value(me, d[1])
            given[name] = (int(v) if d[0] == 'I' else str(v)) if v is not None else None
        elif d[0] == 'B':
            given[name] = bool(smt.model_value(me, d[1]))
    for name, d in inputs.items():
        if d[0] != 'A':
            continue
        _, nm, shape, dt, sort = d
        dims = []
        for s in shape:
            v = smt.model_value(me, s)
            if v is None or v > 8 or v < 0:
                return None
            dims.append(int(v))
        import itertools
        vals = {}
        for ix in itertools.product(*[range(x) for x in dims]):
            t = tm.app(nm, *[tm.const(i) for i in ix], sort=sort)
            v = smt.model_value(me, t)
            if v is None:
                continue
            vals[','.join(map(str, ix))] = bool(v) if sort == 'B' else (int(v) if sort == 'I' else str(v))
        given[name] = vals
    return given


def verify(c, tier, workers=4):
    """the verdict on one contract (in its own process)"""
    quick = tier != 'thorough'
    t0 = time.time()
    gen_s = 180 if quick else 400
    total = 330 if quick else 600
    budget, z3t = (25.0, 8.0) if quick else (90.0, 30.0)
    g = generate(c, None, gen_s)
    res = discharge(g['obls'], budget, z3t, g['inputs'], workers, t0 + total)
    r = {'id': c.id, 'gen': g['status'], 'reason': g['reason'], 'paths': g['paths'], 'notes': g['notes'],
         'gen_s': round(g['gen_s'], 2), 'obligations': [], 'small': [], 'modules': g['modules']}
    bad = []
    for o, (st, tags, s, given) in zip(g['obls'], res):
        r['obligations'].append({'name': o['name'], 'kind': o['kind'], 'status': st, 'by': tags, 's': round(s, 3),
                                 'given': given, 'goal': tm.show(o['goal'])[:300]})
        if st != 'proved':
            bad.append(o['name'])
    r['failed'] = sorted(set(bad))
    r['proved'] = g['status'] == 'ok' and not bad and bool(g['obls'])
    # vacuity: the hypotheses at the end of at least one path are consistent
    r['vacuous'] = None
    for hy in sorted(g['reach'], key=len):
        q, _m = smt.check_sat(hy, 3.0)
        r['vacuous'] = q == 'unsat'
        if q != 'unsat':
            break
    if not g['reach'] and g['status'] == 'ok':
        r['vacuous'] = True
    if not r['proved']:
        r['small'] = bounded(c, quick, workers, t0 + total)
    r['wall'] = round(time.time() - t0, 2)
    return r


def bounded(c, quick, workers, deadline):
    """the contract on instances of fixed small sizes (contents symbolic)"""
    out = []
    for sm in c.small:
        if time.time() > deadline:
            break
        g = generate(c, sm, 40 if quick else 120)
        d = {'sizes': sm, 'gen': g['status'], 'reason': g['reason'], 'paths': g['paths'], 'n': len(g['obls']),
             'proved': 0, 'refuted': [], 'unknown': []}
        if g['status'] == 'ok':
            res = discharge(g['obls'], 15.0, 8.0, g['inputs'], workers, min(deadline, time.time() + 60))
            for o, (st, tags, s, given) in zip(g['obls'], res):
                if st == 'proved':
                    d['proved'] += 1
                elif st == 'refuted':
                    d['refuted'].append({'name': o['name'], 'given': given, 'goal': tm.show(o['goal'])[:300]})
                else:
                    d['unknown'].append(o['name'])
        out.append(d)
    return out
