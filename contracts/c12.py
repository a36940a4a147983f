from dv.spec import contract
from contracts.common import get

SM = [{'n': k} for k in (2, 3, 4)]


def straight_line(c, n):
    X = c.seq('X', n, rand=(0, 50))
    Y = c.seq('Y', n, rand=(-20, 200))
    if not c.is_sym and c.rng.random() < 0.5:
        Y[:] = X * c.rng.choice([0.1, 3, -2]) + Y * 0.01
    return X, Y


@contract('C12', ['LinearB0'], small=[{'n': 1}] + SM, samples=150)
def through_origin(c):
    n = c.size('n', 1, rand=(1, 8))
    X, Y = straight_line(c, n)
    sxx = c.sum(n, lambda i: c.square(c.at(X, i)))
    c.assume(sxx > 0)
    x0, y0 = c.snapshot(X), c.snapshot(Y)
    val, err = c.call(c.mod('process.routines').LinearB0, X, Y)
    m = val[0]
    c.ensure('one parameter', c.exact(c.len(val), 1))
    sxy = c.sum(n, lambda i: c.at(X, i) * c.at(Y, i))
    sc = c.sum(n, lambda i: c.abs(c.at(X, i) * c.at(Y, i))) + sxx
    c.ensure('normal equation', c.eq(m * sxx, sxy, scale=sc))
    a = c.real('a', rand=(-5, 5))
    S = lambda p: c.sum(n, lambda i: c.square(p * c.at(X, i) - c.at(Y, i)))
    s2 = S(a) + S(m) + c.square(a) * sxx
    c.ensure('distance to the optimum', c.eq(S(a) - S(m), c.square(a - m) * sxx, scale=s2))
    c.ensure('optimal', c.square(a - m) * sxx >= 0)
    c.ensure('inputs unchanged', c.land(c.same(X, x0), c.same(Y, y0)))


@contract('C12', ['LinearB'], small=SM, samples=150)
def with_offset(c):
    n = c.size('n', 2, rand=(2, 8))
    X, Y = straight_line(c, n)
    sxx = c.sum(n, lambda i: c.square(c.at(X, i)))
    sx = c.sum(n, lambda i: c.at(X, i))
    # not all abscissas are the same
    c.assume(n * sxx - sx * sx > (0 if c.is_sym else 0.1))
    x0, y0 = c.snapshot(X), c.snapshot(Y)
    val, err = c.call(c.mod('process.routines').LinearB, X, Y)
    c.ensure('two parameters', c.exact(c.len(val), 2))
    m, b = val[0], val[1]
    sy = c.sum(n, lambda i: c.at(Y, i))
    sxy = c.sum(n, lambda i: c.at(X, i) * c.at(Y, i))
    sc = 100 * c.sum(n, lambda i: (c.abs(c.at(X, i)) + 1) * (c.abs(c.at(Y, i)) + 1)) + sxx
    c.ensure('normal equation of the slope', c.eq(m * sxx + b * sx, sxy, scale=sc))
    c.ensure('normal equation of the offset', c.eq(m * sx + b * n, sy, scale=sc))
    a, d = c.real('a', rand=(-5, 5)), c.real('d', rand=(-5, 5))
    S = lambda p, q: c.sum(n, lambda i: c.square(p * c.at(X, i) + q - c.at(Y, i)))
    excess = c.sum(n, lambda i: c.square((a - m) * c.at(X, i) + (d - b)))
    c.ensure('distance to the optimum', c.eq(S(a, d) - S(m, b), excess, scale=S(a, d) + S(m, b) + 100 * sc))
    c.ensure('optimal', excess >= 0)
    c.ensure('inputs unchanged', c.land(c.same(X, x0), c.same(Y, y0)))


def ranged(c, n):
    t = {k: c.seq(k, n, **kw) for k, kw in
         (('u_p', dict(rand=(1, 5000))), ('u_y', dict(rand=(0, 250))), ('u_ydark', dict(rand=(0, 5))),
          ('s2_y', dict(lo=0, rand=(0.1, 30))), ('s2_ydark', dict(lo=0, rand=(0.1, 3))))}
    lo = c.int('imin', 0, rand=(0, int(n) - 1) if not c.is_sym else None)
    hi = c.int('imax', 0, rand=(0, int(n) - 1) if not c.is_sym else None)
    c.assume(lo <= hi)
    c.assume(hi < n)
    R = c.cls('process.results', 'Results1288')

    class Given(R):
        index_sensitivity_min = property(lambda self: lo)
        index_sensitivity_max = property(lambda self: hi)
    r = c.call(Given, c.dict({'temporal': c.dict(t), 'spatial': c.dict()}))
    return r, t, lo, hi


@contract('C12', ['Results1288.R', 'LinearB0'], small=[{'n': 1}] + SM, samples=100)
def responsivity(c):
    n = c.size('n', 1, rand=(1, 8))
    r, t, lo, hi = ranged(c, n)
    k = hi + 1 - lo
    X = lambda i: c.at(t['u_p'], lo + i)
    Y = lambda i: c.at(t['u_y'], lo + i) - c.at(t['u_ydark'], lo + i)
    sxx = c.sum(k, lambda i: c.square(X(i)))
    c.assume(sxx > 0)
    c.ensure('slope', c.eq(get(c, r, 'R') * sxx, c.sum(k, lambda i: X(i) * Y(i)),
                           scale=c.sum(k, lambda i: c.abs(X(i) * Y(i))) + sxx))


@contract('C12', ['Results1288.K', 'LinearB0'], small=[{'n': 1}] + SM, samples=100)
def gain(c):
    n = c.size('n', 1, rand=(1, 8))
    r, t, lo, hi = ranged(c, n)
    k = hi + 1 - lo
    X = lambda i: c.at(t['u_y'], lo + i) - c.at(t['u_ydark'], lo + i)
    Y = lambda i: c.at(t['s2_y'], lo + i) - c.at(t['s2_ydark'], lo + i)
    sxx = c.sum(k, lambda i: c.square(X(i)))
    c.assume(sxx > 0)
    c.ensure('slope', c.eq(get(c, r, 'K') * sxx, c.sum(k, lambda i: X(i) * Y(i)),
                           scale=c.sum(k, lambda i: c.abs(X(i) * Y(i))) + sxx))
