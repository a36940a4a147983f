from dv.spec import contract
from contracts.common import get

SM = [{'n': k} for k in (2, 3, 4)]


def measured(c, n):
    t = {k: c.seq(k, n, **kw) for k, kw in
         (('u_p', dict(rand=(1, 5000))), ('u_y', dict(rand=(1, 250))), ('u_ydark', dict(rand=(0, 0.9))))}
    if not c.is_sym and c.rng.random() < 0.7:
        t['u_p'].sort()
        t['u_y'] = t['u_p'] * 0.04 * (1 + 0.1 * (t['u_y'] / 250 - 0.5)) + 1 + t['u_ydark']
    lo = c.int('imin', 0, rand=(0, max(0, int(n) - 3)) if not c.is_sym else None)
    end = c.int('end', 1, rand=(min(lo + 2, int(n)), int(n)) if not c.is_sym else None)
    c.assume(lo < end)
    c.assume(end <= n)
    hi = end - 1
    R = c.cls('process.results', 'Results1288')

    class Given(R):
        index_linearity_min = property(lambda self: lo)
        index_linearity_max = property(lambda self: hi)
    r = c.call(Given, c.dict({'temporal': c.dict(t), 'spatial': c.dict()}))
    X = lambda i: c.at(t['u_p'], i)
    Y = lambda i: c.at(t['u_y'], i) - c.at(t['u_ydark'], i)
    # the signal does not vanish in the range
    c.assume(c.forall(n, lambda i: c.lnot(c.exact(Y(i), 0))))
    return r, t, lo, hi, X, Y


def sums(c, lo, hi, X, Y):
    k = hi + 1 - lo
    return dict(
        xy=c.sum(k, lambda i: X(lo + i) / Y(lo + i)),
        xy2=c.sum(k, lambda i: X(lo + i) / c.square(Y(lo + i))),
        x2y2=c.sum(k, lambda i: c.square(X(lo + i)) / c.square(Y(lo + i))),
        y=c.sum(k, lambda i: 1 / Y(lo + i)),
        y2=c.sum(k, lambda i: 1 / c.square(Y(lo + i))))


@contract('C14', ['Results1288.linearity'], small=SM, samples=200)
def fit(c):
    c.name_large()
    n = c.size('n', 2, rand=(3, 9))
    r, t, lo, hi, X, Y = measured(c, n)
    s = sums(c, lo, hi, X, Y)
    det = s['x2y2'] * s['y2'] - c.square(s['xy2'])
    # at least two different photon counts, one of them not zero
    c.assume(det > (0 if c.is_sym else 1e-3 * s['x2y2'] * s['y2']))
    c.assume(s['x2y2'] > 0)
    lin = get(c, r, 'linearity')
    a, b = lin['fit_slope'], lin['fit_offset']
    k = hi + 1 - lo
    c.ensure('normal equation of the slope',
             c.eq(a * s['x2y2'] + b * s['xy2'], s['xy'], scale=1e5 * k))
    c.ensure('normal equation of the offset',
             c.eq(a * s['xy2'] + b * s['y2'], s['y'], scale=1e5 * k))
    p, q = c.real('p', rand=(-1, 1)), c.real('q', rand=(-5, 5))
    # ((u*x + v) - y)/y = (u*x + v)/y - 1 as y is not zero
    S = lambda u, v: c.sum(k, lambda i: c.square((u * X(lo + i) + v) / Y(lo + i) - 1))
    excess = c.sum(k, lambda i: c.square(((p - a) * X(lo + i) + q - b) / Y(lo + i)))
    c.ensure('distance to the optimum', c.eq(S(p, q) - S(a, b), excess, scale=1e3 * (S(p, q) + S(a, b) + k)))
    # a sum of squares, also seen from A*excess = (u*A + v*B)^2 + v^2*det with A, det > 0
    u, v = p - a, q - b
    c.ensure('certificate', c.eq(excess * s['x2y2'], c.square(u * s['x2y2'] + v * s['xy2']) + c.square(v) * det,
                                 scale=1e3 * (excess + 1) * (s['x2y2'] + 1) * 100))


@contract('C14', ['Results1288.linearity', 'Results1288.LE_min', 'Results1288.LE_max'], small=SM, samples=200)
def deviation(c):
    c.name_large()
    n = c.size('n', 2, rand=(3, 9))
    r, t, lo, hi, X, Y = measured(c, n)
    lin = get(c, r, 'linearity')
    a, b = lin['fit_slope'], lin['fit_offset']
    F = lambda i: a * X(i) + b
    # any measurement where the fitted line does not vanish
    j = c.int('j', 0, rand=(0, int(n) - 1) if not c.is_sym else None)
    c.assume(j < n)
    c.assume(c.lnot(c.exact(F(j), 0)))
    dev = lin['relative_deviation']
    c.ensure('for every measurement', c.exact(c.len(dev), n))
    c.ensure('deviation', c.eq(c.at(dev, j) * F(j), 100 * (Y(j) - F(j)), scale=1e3))
    mn, mx = lin['linearity_error_min'], lin['linearity_error_max']
    k = hi + 1 - lo
    c.ensure('lower bound', c.forall(k, lambda i: mn <= c.at(dev, lo + i)))
    c.ensure('lowest attained', c.exists(k, lambda i: c.eq(mn, c.at(dev, lo + i))))
    c.ensure('upper bound', c.forall(k, lambda i: mx >= c.at(dev, lo + i)))
    c.ensure('highest attained', c.exists(k, lambda i: c.eq(mx, c.at(dev, lo + i))))
    c.ensure('LE_min', c.eq(get(c, r, 'LE_min'), mn))
    c.ensure('LE_max', c.eq(get(c, r, 'LE_max'), mx))
