from dv.spec import contract
from contracts.common import get

SM = [{'n': k} for k in (1, 2, 3, 4)]


def fitted(c, n, names=('u_y', 'u_ydark')):
    """results on n measurements with a given saturation index"""
    t = {'u_y': c.seq('u_y', n, rand=(0, 250)), 'u_ydark': c.seq('u_ydark', n, rand=(0, 5)),
         'u_p': c.seq('u_p', n, rand=(1, 5000)), 's2_y': c.seq('s2_y', n, lo=0, rand=(0.1, 30)),
         's2_ydark': c.seq('s2_ydark', n, lo=0, rand=(0.1, 3))}
    if not c.is_sym and c.rng.random() < 0.7:
        t['u_y'].sort()
        t['u_ydark'][:] = c.rng.choice([0.0, 0.5])
        t['u_y'] += t['u_ydark']
        if c.rng.random() < 0.5:
            # values on the limits
            t['u_y'][-1] = 100.0 + t['u_ydark'][-1]
            for k in range(len(t['u_y']) - 1):
                t['u_y'][k] = t['u_ydark'][k] + c.rng.choice([5, 5.5, 70, 70.5, 95, 95.5, 30, 2, 99])
    s = c.int('sat', 0, rand=(max(0, int(n) - 2), int(n) - 1) if not c.is_sym else None)
    c.assume(s < n)
    R = c.cls('process.results', 'Results1288')

    class Given(R):
        index_u_ysat = property(lambda self: s)
    r = c.call(Given, c.dict({'temporal': c.dict(t), 'spatial': c.dict()}))
    Y = lambda i: c.at(t['u_y'], i) - c.at(t['u_ydark'], i)
    return r, t, s, Y


@contract('C11', ['Results1288.index_sensitivity_max', 'Results1288.index_sensitivity_min', 'Results1288.index_start'],
          small=SM, samples=300)
def sensitivity(c):
    n = c.size('n', 1, rand=(1, 8))
    r, t, s, Y = fitted(c, n)
    m = c.q(7, 10) * Y(s)
    # a measurement at or below the limit exists
    w = c.int('low', 0, rand=(0, int(n) - 1) if not c.is_sym else None)
    c.assume(w < n)
    c.assume(Y(w) <= m)
    i = get(c, r, 'index_sensitivity_max')
    c.ensure('in range', c.land(0 <= i, i < n))
    c.ensure('at or below 70%', Y(i) <= m)
    c.ensure('the last one', c.forall_range(i + 1, n, lambda k: Y(k) > m))
    c.ensure('from the first', c.exact(get(c, r, 'index_sensitivity_min'), 0))
    c.ensure('start', c.exact(get(c, r, 'index_start'), 0))


@contract('C11', ['Results1288.index_linearity_max', 'Results1288.index_linearity_min'], small=SM, samples=300)
def linearity(c):
    n = c.size('n', 1, rand=(1, 8))
    r, t, s, Y = fitted(c, n)
    lo, hi = c.q(5, 100) * Y(s), c.q(95, 100) * Y(s)
    w = c.int('low', 0, rand=(0, int(n) - 1) if not c.is_sym else None)
    c.assume(w < n)
    c.assume(Y(w) <= hi)
    c.assume(Y(s) >= 0)
    i = get(c, r, 'index_linearity_max')
    c.ensure('in range', c.land(0 <= i, i < n))
    c.ensure('at or below 95%', Y(i) <= hi)
    c.ensure('the last one', c.forall_range(i + 1, n, lambda k: Y(k) > hi))
    j = get(c, r, 'index_linearity_min')
    c.ensure('min in range', c.land(0 <= j, j < n))
    c.ensure('at or above 5%', Y(j) >= lo)
    c.ensure('the first one', c.forall(j, lambda k: Y(k) < lo))
