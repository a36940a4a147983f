from dv.spec import contract
from contracts.common import results, get

SM = [{'n': k} for k in (1, 2, 3, 4)]


def _table(c, n):
    s = c.seq('s2_y', n, lo=0, rand=(0, 6))
    if not c.is_sym:
        if c.decide(c.rng.random() < 0.5):
            s[:] = [float(int(x)) for x in s]
    return s, c.dict({'s2_y': s, 'u_p': c.seq('u_p', n), 'u_y': c.seq('u_y', n), 'u_ydark': c.seq('u_ydark', n)})


def _lasting(c, s, n, j):
    """at least every later value"""
    return c.forall_range(j + 1, n, lambda k: c.at(s, k) <= c.at(s, j))


def _before(c, s, j):
    """larger than both of the two values before, as far as they exist"""
    return c.land(c.implies(j >= 1, lambda: c.at(s, j - 1) < c.at(s, j)), c.implies(j >= 2, lambda: c.at(s, j - 2) < c.at(s, j)))


def _peak(c, s, n, j):
    return c.land(_lasting(c, s, n, j), _before(c, s, j))


@contract('C10', ['Results1288.index_u_ysat'], small=SM, samples=400)
def rightmost_peak(c):
    n = c.size('n', 1, rand=(1, 9))
    s, t = _table(c, n)

    def inv(k, env):
        i, m = n - k, env['max_i']
        return c.land(
            c.implies(c.exact(k, 0), lambda: c.land(c.exact(env['max_'], 0), c.exact(m, 0))),
            c.implies(k >= 1, lambda: c.land(
                0 <= m, m < n,
                c.lor(c.exact(m, i), c.land(c.exact(i, 0), c.exact(m, 1), c.at(s, 0) < c.at(s, 1))),
                c.exact(env['max_'], c.at(s, m)),
                c.lor(_lasting(c, s, n, m), c.land(m >= 1, _lasting(c, s, n, m - 1))),
                c.forall_range(m + 1, n, lambda j: c.lnot(_before(c, s, j))))))
    c.loop_invariant('index_u_ysat', {'max_': 'f', 'max_i': 'i'}, inv)
    r = results(c, t)
    i = get(c, r, 'index_u_ysat')
    c.ensure('an index', c.land(0 <= i, i < n))
    c.ensure('lasting', _lasting(c, s, n, i))
    c.ensure('larger than the two before', _before(c, s, i))
    c.ensure('no later peak', c.forall_range(i + 1, n, lambda j: c.lnot(_peak(c, s, n, j))))
    c.ensure('read again', c.exact(get(c, r, 'index_u_ysat'), i))


@contract('C10', ['Results1288.__init__', 'Results1288.index_u_ysat'], small=SM)
def forced(c):
    n = c.size('n', 1, rand=(1, 9))
    s, t = _table(c, n)
    k = c.int('index', 1, rand=(1, 12))
    r = results(c, t, index_u_ysat=k)
    c.ensure('used', c.exact(get(c, r, 'index_u_ysat'), k))
    c.ensure('used again', c.exact(get(c, r, 'index_u_ysat'), k))
