from dv.spec import contract

SM = [{'n': 3, 'K': 1, 'J': 1}]
GROUPS = 5


def data(c):
    n = c.size('n', 3, rand=(3, 7))
    K, J = c.size('K', 1, rand=(1, 3)), c.size('J', 1, rand=(1, 3))
    M, N = K + 4, J + 4
    t = {'u_p': c.seq('u_p', n, rand=(1, 5000)), 'u_y': c.seq('u_y', n, rand=(0, 250)),
         's2_y': c.seq('s2_y', n, lo=0, rand=(0.1, 30)), 'u_ydark': c.seq('u_ydark', n, rand=(0, 5)),
         's2_ydark': c.seq('s2_ydark', n, lo=0, rand=(0.1, 3)), 'texp': c.seq('texp', n, rand=(1000, 9000))}
    if not c.is_sym:
        t['u_p'].sort()
        if c.rng.random() < 0.8:
            # a camera: linear up to saturation
            g = c.rng.uniform(0.02, 0.08)
            t['u_y'] = g * t['u_p'] + t['u_ydark']
            t['s2_y'] = 0.3 * t['u_y'] + t['s2_ydark']
            t['s2_y'][-1] = 0.1
        if c.rng.random() < 0.5:
            t['texp'][:] = 1000.
    s = {'sum': c.array('sum', (M, N), 'int64', 0, 2 ** 40, rand=(0, 900)),
         'sum_dark': c.array('sum_dark', (M, N), 'int64', 0, 2 ** 40, rand=(0, 90)),
         'pvar': c.array('pvar', (M, N), 'int64', 0, 2 ** 40, rand=(0, 900)),
         'pvar_dark': c.array('pvar_dark', (M, N), 'int64', 0, 2 ** 40, rand=(0, 90))}
    for p in ('', '_dark'):
        s['L' + p] = c.int('L' + p, 2, rand=(2, 9))
        s['avg' + p] = c.array('avg' + p, (M, N), rand=(0, 100))
        s['var' + p] = c.array('var' + p, (M, N), rand=(0, 100))
        s['avg_mean' + p] = c.real('avg_mean' + p, rand=(50, 200) if not p else (0, 20))
        for k in ('var_mean', 'avg_var'):
            s[k + p] = c.real(k + p, 0, rand=(0, 20))
        for k in ('avg_var_cav', 'avg_var_rav'):
            s[k + p] = c.real(k + p, rand=(-2, 8))
        s['M' + p], s['N' + p] = M, N
    d = c.dict({'temporal': c.dict(t), 'spatial': c.dict(s)})
    return n, t, s, d


def parts(c, d):
    """the data: keys, arrays and numbers"""
    return [(k, x, d[k][x]) for k in ('temporal', 'spatial') for x in c.keys(d[k])]


def unchanged(c, d, names, copies):
    now = parts(c, d)
    if [(k, x) for k, x, v in now] != names:
        return False
    return c.land(*[c.same(v, w) for (k, x, v), w in zip(now, copies)])


def values(c, R):
    """every value of a results object: properties and methods without arguments"""
    out = []
    for K in reversed(c.mro(R)):
        for k in K.__dict__:
            if k.startswith('_') or k in ('xml', 'print_results', 'results', 'results_by_section'):
                continue
            if k not in out:
                out.append(k)
    return sorted(out)


def read(c, r, name):
    def f():
        v = getattr(r, name)
        return v() if callable(v) else v
    return c.outcome(f)


def alike(c, a, b):
    if a[0] != b[0]:
        return False
    return c.same(a[1], b[1]) if a[0] == 'ok' else type(a[1]) is type(b[1])


def state(r):
    return {k: v for k, v in vars(r).items() if k != 'log'}


INDEX = ('index_u_ysat', 'index_sensitivity_max', 'index_sensitivity_min', 'index_linearity_min', 'index_linearity_max',
         'index_start')
NUMBER = ('R', 'K', 'inverse_K', 'QE', 'sigma_y_dark', 'sigma_d', 'u_p_min', 'u_e_min', 'u_p_sat', 'u_e_sat', 'SNR_max', 'DR',
          's2q', 'u_I_var_DN', 'u_I_mean_DN', 's_2_y', 's_2_y_dark', 's_2_y_cav', 's_2_y_cav_dark', 's_2_y_rav',
          's_2_y_rav_dark', 's_2_y_col', 's_2_y_col_dark', 's_2_y_row', 's_2_y_row_dark', 's_2_y_pixel', 's_2_y_pixel_dark',
          'DSNU1288', 'DSNU1288_DN', 'sigma_2_y_stack', 'sigma_2_y_stack_dark', 's_2_y_measured', 's_2_y_measured_dark')


def given(c, R, n, but):
    """the class with every other result given: read through its own contract
    (no write, always the same value)"""
    d = {}
    have = set(values(c, R))
    for k in INDEX:
        v = c.int(k, 0)
        c.assume(v < n)
        if k != but and k in have:
            d[k] = property(lambda self, v=v: v)
    for k in NUMBER:
        v = c.real('r_' + k, pos=True)
        if k != but and k in have:
            d[k] = property(lambda self, v=v: v)
    if but != 'linearity' and 'linearity' in have:
        # the figures of the straight line fit, in a new dictionary each time
        dev = c.seq('relative_deviation', n)
        f = {k: c.real('lin_' + k) for k in ('fit_slope', 'fit_offset', 'linearity_error_min', 'linearity_error_max')}
        g = lambda self: c.dict(dict(f, relative_deviation=c.snapshot(dev)))
        d['linearity'] = property(g) if isinstance(getattr(R, 'linearity'), property) else g
    return type('Given', (R,), d)


def callees(c):
    """the routines are given: they leave their arguments unchanged (see
    routines below) and return the same for the same arguments"""
    import itertools
    num = itertools.count()

    def memo(name, make):
        seen = []

        def f(*a, **k):
            arg = list(a) + [k[x] for x in sorted(k)]
            for b, r in seen:
                if len(b) == len(arg) and all(c.same(x, y) is True for x, y in zip(b, arg)):
                    return r()
            r = make('%s_%d' % (name, next(num)))
            seen.append(([c.snapshot(x) for x in arg], r))
            return r()
        c.patch('process.routines', name, f)

    def fit(nm, k):
        v = c.seq(nm, k)
        e = c.real(nm + '_error')
        return lambda: (c.snapshot(v), e)

    def hist(nm):
        n = c.int(nm + '_bins', 1)
        b, v, m = c.seq(nm + '_b', n), c.seq(nm + '_v', n, 'int64', 0, 2 ** 60), c.seq(nm + '_m', n)
        return lambda: c.dict({'bins': c.snapshot(b), 'values': c.snapshot(v), 'model': c.snapshot(m)})

    def filt(nm):
        y = c.array(nm, (c.int('fm', 1), c.int('fn', 1)), 'int64', -2 ** 60, 2 ** 60)
        return lambda: c.dict({'img': c.snapshot(y), 'multiplicator': 25})
    memo('LinearB', lambda nm: fit(nm, 2))
    memo('LinearB0', lambda nm: fit(nm, 1))
    memo('Histogram1288', hist)
    memo('high_pass_filter', filt)


def group(c, g):
    n, t, s, d = data(c)
    area = c.real('area', pos=True)
    R = c.cls('process.results', 'Results1288')
    allv = values(c, R)
    mine = [q for q in allv[g::GROUPS] if not c.is_sym or q != 'index_u_ysat']
    names = [(k, x) for k, x, v in parts(c, d)]
    copies = [c.snapshot(v) for k, x, v in parts(c, d)]
    if c.is_sym:
        name = c.choice('name', mine)
        G = given(c, R, n, name)
        if c.cut:
            callees(c)
        cached = c.int('cached', 1)
        c.assume(cached < n)
        r = G(d, pixel_area=area)
        old = state(r)
        v1 = read(c, r, name)
        c.ensure('%s: data unchanged' % name, unchanged(c, d, names, copies))
        kept = (v1[0], c.snapshot(v1[1]) if v1[0] == 'ok' else v1[1])
        st = state(r)
        new = {k: v for k, v in st.items() if k not in old or v is not old[k]}
        c.ensure('%s: nothing of the object is removed' % name, all(k in st for k in old))
        if new:
            # something is kept in the object: no other result may depend on it
            for q in allv:
                if q not in (name, 'index_u_ysat'):
                    Q = given(c, R, n, q)
                    a, b = Q(d, pixel_area=area), Q(d, pixel_area=area)
                    b.__dict__.update(new)
                    c.ensure('%s does not change %s' % (name, q), alike(c, read(c, a, q), read(c, b, q)))
        c.ensure('%s: same value again' % name, alike(c, kept, read(c, r, name)))
        c.ensure('%s: same value once the saturation point is known' % name,
                 alike(c, kept, read(c, G(d, pixel_area=area, index_u_ysat=cached), name)))
        return
    # in any order: values of a fresh object each, against one object read in a random order, twice
    import copy
    sat = c.rng.choice([None, int(n) - 1])
    new = lambda: R(d, pixel_area=area, index_u_ysat=sat)
    order = [c.rng.choice(mine)] + [c.rng.choice(allv) for _ in range(6)]
    order = order + order[::-1]
    c.note(order)
    r = new()
    for q in order:
        got = read(c, r, q)
        keep = (got[0], copy.deepcopy(got[1])) if got[0] == 'ok' else got
        c.ensure('%s: data unchanged' % q, unchanged(c, d, names, copies))
        c.ensure('%s: value of a fresh object' % q, alike(c, keep, read(c, new(), q)))


def _add(g):
    @contract('C20', ['Results1288'], small=SM, samples=60, name='results_%d' % g)
    def f(c):
        group(c, g)
    return f


for _g in range(GROUPS):
    _add(_g)


@contract('C20', ['Results1288.index_u_ysat'], bounded='up to four measurements', samples=100)
def saturation(c):
    n = c.choice('n', [1, 2, 3, 4])
    s = c.seq('s2_y', n, lo=0, rand=(0, 6))
    s0 = c.snapshot(s)
    r = c.cls('process.results', 'Results1288')(c.dict({'temporal': c.dict({'s2_y': s}), 'spatial': c.dict()}))
    old = state(r)
    i = r.index_u_ysat
    st = state(r)
    c.ensure('only the saturation point is kept', list(st) == list(old) and all(
        c.same(st[k], old[k]) is True for k in st if k != '_index_u_ysat'))
    c.ensure('same value again', c.exact(r.index_u_ysat, i))
    c.ensure('data unchanged', c.same(s, s0))


def lines(c, fn):
    n = c.size('n', 3, rand=(3, 7))
    x, y = c.seq('x', n, rand=(0, 100)), c.seq('y', n, rand=(0, 100))
    x0, y0 = c.snapshot(x), c.snapshot(y)
    f = getattr(c.mod('process.routines'), fn)
    c.outcome(f, x, y)
    c.ensure('arguments unchanged', c.land(c.same(x, x0), c.same(y, y0)))
    if not c.is_sym:
        # integer and non contiguous arguments
        import numpy as np
        z = np.arange(20)[::2]
        w = z * 3 % 7
        z0, w0 = z.copy(), w.copy()
        a, b = f(z, w), f(z, w)
        c.ensure('arguments unchanged', c.land(c.same(z, z0), c.same(w, w0)))
        c.ensure('same value again', np.array_equal(a[0], b[0]))


@contract('C20', ['LinearB'], small=[{'n': 3}], samples=60)
def fit_line(c):
    lines(c, 'LinearB')


@contract('C20', ['LinearB0'], small=[{'n': 3}], samples=60)
def fit_slope(c):
    lines(c, 'LinearB0')


def image(c, masked, lo=-2 ** 40):
    M, N = c.size('M', 1, rand=(3, 6)), c.size('N', 1, rand=(3, 6))
    a = c.array('img', (M, N), 'int64', lo, 2 ** 40, rand=(0, 300))
    if not masked:
        return M, N, a, None
    m = c.array('mask', (M, N), 'bool')
    if not c.is_sym:
        m[0, 0] = False
    c.assume(c.lnot(c.at(m, 0, 0)))
    return M, N, a, m


SI = [{'M': 2, 'N': 2}]


def frame(c, f, masked, **k):
    M, N, a, m = image(c, masked)
    a0 = c.snapshot(a)
    arg = c.masked(a, m) if masked else a
    m0 = c.snapshot(m) if masked else None
    f(arg, **k)
    c.ensure('image unchanged', c.forall(M, lambda i: c.forall(N, lambda j: c.exact(c.data_at(arg, i, j), c.at(a0, i, j)))))
    if masked:
        c.ensure('mask unchanged', c.forall(M, lambda i: c.forall(N, lambda j: c.iff(c.masked_at(arg, i, j), c.at(m0, i, j)))))


@contract('C20', ['Histogram1288'], small=SI, samples=60)
def histogram(c):
    frame(c, lambda x: c.call(c.mod('process.routines').Histogram1288, x, 256), False)


@contract('C20', ['Histogram1288'], small=SI, samples=60)
def histogram_masked(c):
    frame(c, lambda x: c.call(c.mod('process.routines').Histogram1288, x, 256), True)


@contract('C20', ['FFT1288'], small=SI, samples=60)
def spectrum(c):
    frame(c, lambda x: c.call(c.mod('process.routines').FFT1288, x, rotate=bool(c.choice('rotate', [0, 1])), n=3), False)


@contract('C20', ['FFT1288', '_row_wise_compress'], bounded='masked images of 2x2 and 2x3 pixels, every mask', samples=60)
def spectrum_masked(c):
    M, N = 2, c.choice('N', [2, 3])
    a = c.array('img', (M, N), 'int64', -2 ** 40, 2 ** 40, rand=(0, 300))
    m = c.array('mask', (M, N), 'bool')
    if not c.is_sym:
        m[0, 0] = False
    c.assume(c.lnot(c.at(m, 0, 0)))
    used = [[c.decide(c.lnot(c.at(m, i, j))) for j in range(N)] for i in range(M)]
    a0, m0 = c.snapshot(a), c.snapshot(m)
    arg = c.masked(a, m)
    c.call(c.mod('process.routines').FFT1288, arg, rotate=bool(c.choice('rotate', [0, 1])))
    for i in range(M):
        for j in range(N):
            c.ensure('image unchanged', c.exact(c.data_at(arg, i, j), c.at(a0, i, j)))
            c.ensure('mask unchanged', c.iff(c.masked_at(arg, i, j), c.at(m0, i, j)))


@contract('C20', ['high_pass_filter'], small=[{'K': 1, 'J': 1}], samples=60)
def filtered(c):
    K, J = c.size('K', 1, rand=(1, 4)), c.size('J', 1, rand=(1, 4))
    a = c.array('img', (K + 4, J + 4), 'int64', -2 ** 40, 2 ** 40, rand=(0, 300))
    a0 = c.snapshot(a)
    c.call(c.mod('process.routines').high_pass_filter, a, 5)
    c.ensure('image unchanged', c.same(a, a0))
