from dv.spec import contract
from contracts.common import get

SM = [{'n': k} for k in (1, 2, 3, 4)]


def exposures(c, n, distinct):
    """dark series on n exposure times; distinct: more than two different ones"""
    t = {'texp': c.seq('texp', n, rand=(1e3, 1e6)), 's2_ydark': c.seq('s2_ydark', n, lo=0, rand=(0, 3)),
         'u_ydark': c.seq('u_ydark', n, rand=(0, 30))}
    if not c.is_sym:
        rng = c.rng
        if not distinct:
            two = [rng.uniform(1e3, 1e6), rng.uniform(1e3, 1e6)][:rng.choice([1, 2])]
            t['texp'][:] = sorted(rng.choice(two) for _ in range(int(n)))
        else:
            t['texp'].sort()
            sl, off = rng.choice([-1e-6, 1e-6, 4e-6]), rng.choice([0.0, 0.1, 0.5, 4.0])
            t['s2_ydark'] = (off + sl * t['texp'] + 0.02 * t['s2_ydark']).clip(0)
            t['u_ydark'] = off + sl * 3 * t['texp'] + 0.02 * t['u_ydark']
    if distinct:
        w = [c.int(x, 0, rand=(k, k) if not c.is_sym else None) for k, x in enumerate('abc')]
        for x in w:
            c.assume(x < n)
        T = [c.at(t['texp'], x) for x in w]
        c.assume(c.land(*[c.lnot(c.exact(p, q)) for p, q in ((T[0], T[1]), (T[0], T[2]), (T[1], T[2]))]))
    else:
        p, q = c.at(t['texp'], 0), c.real('other')
        if not c.is_sym:
            q = t['texp'].max()
        c.assume(c.forall(n, lambda i: c.lor(c.exact(c.at(t['texp'], i), p), c.exact(c.at(t['texp'], i), q))))
    return t


def res(c, t, gain=None):
    R = c.cls('process.results', 'Results1288')
    K = R
    if gain is not None:
        class Given(R):
            K = property(lambda self: gain)
        K = Given
    return c.call(K, c.dict({'temporal': c.dict(t), 'spatial': c.dict()}))


def line(c, t, name, n):
    """slope and offset of the least-squares line over the exposure time, as
    numerators over the common determinant"""
    X, Y = (lambda i: c.at(t['texp'], i)), (lambda i: c.at(t[name], i))
    sx, sy = c.sum(n, X), c.sum(n, Y)
    sxx, sxy = c.sum(n, lambda i: c.square(X(i))), c.sum(n, lambda i: X(i) * Y(i))
    det = n * sxx - sx * sx
    # (implied by two different exposure times; the sum form of Cauchy-Schwarz is assumed)
    c.assume(det > 0)
    return n * sxy - sx * sy, sxx * sy - sx * sxy, det


def close(c, a, b, scale):
    return c.eq(a, b, scale=scale)


@contract('C15', ['Results1288.sigma_y_dark', 'LinearB'], small=SM[2:], samples=300)
def noise_series(c):
    n = c.size('n', 3, rand=(3, 8))
    t = exposures(c, n, True)
    slope, off, det = line(c, t, 's2_ydark', n)
    s = get(c, res(c, t), 'sigma_y_dark')
    c.ensure('not negative', s >= 0)
    v = off / det
    lim = c.q(24, 100)
    c.ensure('square root of the intercept, at least 0.24',
             c.eq(c.square(s), c.ite(v < lim, lim, v), scale=10))


@contract('C15', ['Results1288.sigma_y_dark'], small=SM, samples=300)
def noise_few(c):
    n = c.size('n', 1, rand=(1, 8))
    t = exposures(c, n, False)
    s = get(c, res(c, t), 'sigma_y_dark')
    v, lim = c.at(t['s2_ydark'], 0), c.q(24, 100)
    c.ensure('not negative', s >= 0)
    c.ensure('square root of the first variance, at least 0.24',
             c.eq(c.square(s), c.ite(v < lim, lim, v)))


@contract('C15', ['Results1288.u_I_mean_DN', 'Results1288.u_I_mean', 'Results1288.u_I_var_DN', 'Results1288.u_I_var'],
          small=SM, samples=100)
def current_few(c):
    n = c.size('n', 1, rand=(1, 8))
    t = exposures(c, n, False)
    r = res(c, t, c.real('K', pos=True, rand=(0.05, 5)))
    for name in ('u_I_mean_DN', 'u_I_mean', 'u_I_var_DN', 'u_I_var'):
        c.ensure(name + ' is NaN', c.isnan(get(c, r, name)))


@contract('C15', ['Results1288.u_I_mean_DN', 'Results1288.u_I_mean', 'LinearB'], small=SM[2:], samples=200)
def current_mean(c):
    n = c.size('n', 3, rand=(3, 8))
    t = exposures(c, n, True)
    K = c.real('K', pos=True, rand=(0.05, 5))
    slope, off, det = line(c, t, 'u_ydark', n)
    r = res(c, t, K)
    a, b = get(c, r, 'u_I_mean_DN'), get(c, r, 'u_I_mean')
    c.ensure('DN/s: slope per ns times 1e9', c.eq(a, slope / det * 10 ** 9, scale=1e5))
    c.ensure('electrons', c.eq(b * K, a, scale=1e5))


@contract('C15', ['Results1288.u_I_var_DN', 'Results1288.u_I_var', 'LinearB'], small=SM[2:], samples=200)
def current_var(c):
    n = c.size('n', 3, rand=(3, 8))
    t = exposures(c, n, True)
    K = c.real('K', pos=True, rand=(0.05, 5))
    slope, off, det = line(c, t, 's2_ydark', n)
    r = res(c, t, K)
    a, b = get(c, r, 'u_I_var_DN'), get(c, r, 'u_I_var')
    if not c.is_sym:
        # rounding decides about the sign of a vanishing slope
        c.assume(abs(slope / det) > 1e-8)
    if c.decide(slope < 0):
        c.ensure('NaN for a negative slope', c.land(c.isnan(a), c.isnan(b)))
    else:
        c.ensure('DN/s: slope per ns over the gain times 1e9', c.eq(a * K, slope / det * 10 ** 9, scale=1e5))
        c.ensure('electrons', c.eq(b * K, a, scale=1e5))
