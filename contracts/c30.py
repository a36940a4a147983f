from dv.spec import contract


class Axes:
    """axes that note what is drawn on them"""

    def __init__(self, c, log):
        self.c, self.log, self.title = c, log, None
        # the limits set for each axis, absent where they follow the data
        self.limits = {}

    def _snap(self, v):
        if isinstance(v, (tuple, list)):
            return tuple(v)
        return self.c.snapshot(v)

    def plot(self, *a, **k):
        a, out = list(a), []
        while a:
            x = a.pop(0)
            y = a.pop(0)
            if a and isinstance(a[0], str):
                a.pop(0)
            out.append({'axes': self, 'kind': 'curve', 'label': k.get('label'), 'x': self._snap(x), 'y': self._snap(y),
                        'gid': k.get('gid')})
        self.log.extend(out)
        return out

    def axvline(self, x=0, *a, **k):
        self.log.append({'axes': self, 'kind': 'vertical', 'label': k.get('label'), 'at': x, 'gid': k.get('gid')})
        return self.log[-1]

    def axhline(self, y=0, *a, **k):
        self.log.append({'axes': self, 'kind': 'horizontal', 'label': k.get('label'), 'at': y, 'gid': k.get('gid')})
        return self.log[-1]

    def _curve(self, *a, **k):
        if a and not isinstance(a[0], str):
            return self.plot(*a, **k)

    loglog = semilogx = semilogy = _curve

    def set_title(self, s, *a, **k):
        self.title = s

    def get_legend(self):
        return None

    def _cleared(self, *a, **k):
        self.log.append({'axes': self, 'kind': 'cleared', 'label': None})

    cla = clear = _cleared

    def _nothing(self, *a, **k):
        return None

    def axis(self, *a, **k):
        if a and not isinstance(a[0], (str, bool)):
            k = dict(zip(('xmin', 'xmax', 'ymin', 'ymax'), a[0]), **k)
        for nm in ('xmin', 'xmax', 'ymin', 'ymax'):
            if k.get(nm) is not None:
                self.limits[nm] = k[nm]

    def _limit(self, d, a, lo, hi, k):
        if len(a) == 1 and isinstance(a[0], (tuple, list)):
            a = tuple(a[0])
        k = dict(zip(('lo', 'hi'), a), **k)
        for to, names in (('min', ('lo', lo, d + 'min')), ('max', ('hi', hi, d + 'max'))):
            for nm in names:
                if k.get(nm) is not None:
                    self.limits[d + to] = k[nm]

    def set_xlim(self, *a, **k):
        self._limit('x', a, 'left', 'right', k)

    def set_ylim(self, *a, **k):
        self._limit('y', a, 'bottom', 'top', k)

    def get_ylim(self):
        return self.limits.get('ymin', 0), self.limits.get('ymax', 1)

    legend = set_xlabel = set_ylabel = set_xscale = set_yscale = set_xticks = set_yticks = _nothing
    ticklabel_format = locator_params = invert_yaxis = invert_xaxis = grid = tick_params = _nothing


class Figure:
    def __init__(self, c):
        self.c, self.log, self.axes, self.lines = c, [], [], []

    def add_subplot(self, *a, **k):
        self.axes.append(Axes(self.c, self.log))
        return self.axes[-1]

    def _cleared(self, *a, **k):
        self.log.append({'axes': None, 'kind': 'cleared', 'label': None})

    clf = clear = _cleared

    def _nothing(self, *a, **k):
        return None

    legend = suptitle = tight_layout = subplots_adjust = _nothing


class Test:
    """what is known of one test"""


def make_test(c, k, temporal=False, spatial=None, masked=False, **values):
    t = Test()
    g = '_%d' % k
    temp, spat = c.dict(), c.dict()
    if temporal:
        t.n = n = c.size('n' + g, 2, rand=(2, 6))
        for nm, lo, hi in (('u_p', 1, 5000), ('u_y', 0, 250), ('s2_y', 1, 30), ('u_ydark', 0, 5), ('s2_ydark', 0, 3)):
            s = c.seq(nm + g, n, lo=lo if nm == 's2_y' else None, rand=(lo, hi))
            setattr(t, nm, s)
            temp[nm] = s
        t.texp = c.seq('texp' + g, n, rand=(1, 4))
        temp['texp'] = t.texp
    if spatial:
        t.H, t.W = c.size('H' + g, spatial, rand=(max(spatial, 2), 5)), c.size('W' + g, spatial, rand=(max(spatial, 2), 5))
        t.sum = c.array('sum' + g, (t.H, t.W), 'int64', lo=0, hi=10 ** 6, rand=(500, 900))
        t.dark = c.array('sum_dark' + g, (t.H, t.W), 'int64', lo=0, hi=10 ** 6, rand=(0, 90))
        if masked:
            m = c.array('mask' + g, (t.H, t.W), 'bool')
            t.mask = m
            t.sum, t.dark = c.masked(t.sum, m), c.masked(t.dark, m)
        t.L, t.L_dark = c.int('L' + g, 1, rand=(2, 6)), c.int('L_dark' + g, 1, rand=(2, 6))
        spat.update({'sum': t.sum, 'sum_dark': t.dark, 'L': t.L, 'L_dark': t.L_dark})
    R = c.cls('process.results', 'Results1288')
    t.r = c.call(R, c.dict({'temporal': temp, 'spatial': spat}))
    t.r.id = 11 * (k + 1)
    t.v = values
    return t


def install(c, tests):
    """the results of each test are its values"""
    R = c.cls('process.results', 'Results1288')
    for nm in tests[0].v:
        old = vars(R)[nm]

        def get(self, nm=nm):
            for t in tests:
                if t.r is self:
                    return t.v[nm]
            raise KeyError(nm)
        c.patch_attr(R, nm, property(get) if isinstance(old, property) else get)


def draw(c, name, tests):
    """curves of each test"""
    P = c.cls('process.plotting', name)
    install(c, tests)
    f = Figure(c)
    p = c.call(P, f)
    out = []
    for t in tests:
        k = len(f.log)
        c.call(p.plot, t.r)
        out.append(f.log[k:])
    k = len(f.log)
    c.call(p.rearrange)
    c.ensure('nothing is cleared', all(x['kind'] != 'cleared' for x in f.log) and len(f.log) == k)
    return out


def get(c, x, i):
    return x[i] if isinstance(x, tuple) else c.at(x, i)


def size(c, x):
    return len(x) if isinstance(x, tuple) else c.len(x)


def only(c, log, labels):
    c.ensure('the curves', sorted(c.text(x['label']) or '?' for x in log) == sorted(labels))


def find(c, log, label, axes=None):
    return [x for x in log if c.text(x['label']) == label and (axes is None or x['axes'].title == axes)][0]


def curve(c, x, what, n, fx, fy, scale=None):
    c.ensure(what + ': a curve', x['kind'] == 'curve')
    c.ensure(what + ': length', c.land(c.exact(size(c, x['x']), n), c.exact(size(c, x['y']), n)))
    if isinstance(n, int):
        for i in range(n):
            c.ensure('%s: x %d' % (what, i), c.eq(get(c, x['x'], i), fx(i), scale=scale))
            c.ensure('%s: y %d' % (what, i), c.eq(get(c, x['y'], i), fy(i), scale=scale))
        return
    c.ensure(what + ': x', c.forall(n, lambda i: c.eq(get(c, x['x'], i), fx(i), scale=scale)))
    c.ensure(what + ': y', c.forall(n, lambda i: c.eq(get(c, x['y'], i), fy(i), scale=scale)))


def line(c, x, what, kind, at):
    c.ensure(what, c.land(x['kind'] == kind, c.eq(x['at'], at, scale=1)))


def index(c, name, n):
    k = c.int(name, 0, rand=(0, int(n) - 1) if not c.is_sym else None)
    c.assume(k < n)
    return k


def num(c, k, **r):
    return {nm: c.real('%s_%d' % (nm, k), pos=True, rand=b) for nm, b in r.items()}


S2 = [{'n_0': 2, 'n_1': 3}, {'n_0': 3, 'n_1': 2}]


@contract('C30', ['PlotSensitivity.plot'], small=S2)
def sensitivity(c):
    T = []
    for k in range(2):
        t = make_test(c, k, temporal=True, **num(c, k, R=(0.1, 3)))
        t.a, t.b = index(c, 'a_%d' % k, t.n), index(c, 'b_%d' % k, t.n)
        t.v.update(index_sensitivity_min=t.a, index_sensitivity_max=t.b)
        T.append(t)
    for t, log in zip(T, draw(c, 'PlotSensitivity', T)):
        X = lambda i: c.at(t.u_p, i)
        Y = lambda i: c.at(t.u_y, i) - c.at(t.u_ydark, i)
        only(c, log, ['Data', 'Fit', 'Fit range'])
        curve(c, find(c, log, 'Data'), 'data', t.n, X, Y, 100)
        curve(c, find(c, log, 'Fit'), 'fit', t.n, X, lambda i: t.v['R'] * X(i), 1000)
        curve(c, find(c, log, 'Fit range'), 'range', 2, lambda i: X((t.a, t.b)[i]), lambda i: Y((t.a, t.b)[i]), 100)


@contract('C30', ['PlotUyDark.plot'], small=S2)
def mean_dark(c):
    T = [make_test(c, k, temporal=True) for k in range(2)]
    if c.choice('one exposure', [False, True]):
        for t in T:
            c.assume(c.forall(t.n, lambda i: c.exact(c.at(t.texp, i), c.at(t.texp, 0))))
    for t, log in zip(T, draw_plain(c, 'PlotUyDark', T)):
        only(c, log, ['Data'])
        curve(c, log[0], 'data', t.n, lambda i: c.at(t.texp, i), lambda i: c.at(t.u_ydark, i), 10)


def draw_plain(c, name, T):
    for t in T:
        t.v = {}
    return draw(c, name, T)


@contract('C30', ['PlotPTC.plot'], small=S2)
def photon_transfer(c):
    T = []
    for k in range(2):
        t = make_test(c, k, temporal=True, **num(c, k, K=(0.1, 3)))
        t.a, t.b, t.s = [index(c, '%s_%d' % (x, k), t.n) for x in 'abs']
        t.v.update(index_sensitivity_min=t.a, index_sensitivity_max=t.b, index_u_ysat=t.s)
        T.append(t)
    for t, log in zip(T, draw(c, 'PlotPTC', T)):
        X = lambda i: c.at(t.u_y, i) - c.at(t.u_ydark, i)
        Y = lambda i: c.at(t.s2_y, i) - c.at(t.s2_ydark, i)
        only(c, log, ['Data', 'Fit', 'Fit range', 'Saturation'])
        curve(c, find(c, log, 'Data'), 'data', t.n, X, Y, 100)
        curve(c, find(c, log, 'Fit'), 'fit', t.n, X, lambda i: t.v['K'] * X(i), 1000)
        curve(c, find(c, log, 'Saturation'), 'saturation', 1, lambda i: X(t.s), lambda i: Y(t.s), 100)
        curve(c, find(c, log, 'Fit range'), 'range', 2, lambda i: X((t.a, t.b)[i]), lambda i: Y((t.a, t.b)[i]), 100)


def linearity_tests(c):
    T = []
    for k in range(2):
        t = make_test(c, k, temporal=True)
        t.a, t.b = index(c, 'a_%d' % k, t.n), index(c, 'b_%d' % k, t.n)
        c.assume(t.a < t.b)
        t.slope, t.offset = c.real('slope_%d' % k, rand=(-3, 3)), c.real('offset_%d' % k, rand=(-9, 9))
        t.dev = c.seq('dev_%d' % k, t.n, rand=(-3, 3))
        t.v = dict(index_linearity_min=t.a, index_linearity_max=t.b, linearity=c.dict(
            {'fit_slope': t.slope, 'fit_offset': t.offset, 'relative_deviation': t.dev}))
        T.append(t)
    return T


@contract('C30', ['PlotLinearity.plot'], small=S2)
def linearity(c):
    T = linearity_tests(c)
    for t, log in zip(T, draw(c, 'PlotLinearity', T)):
        X = lambda i: c.at(t.u_p, i)
        Y = lambda i: c.at(t.u_y, i) - c.at(t.u_ydark, i)
        only(c, log, ['Data', 'Fit', 'Fit range'])
        curve(c, find(c, log, 'Data'), 'data', t.n, X, Y, 100)
        curve(c, find(c, log, 'Fit'), 'fit', t.n, X, lambda i: t.slope * X(i) + t.offset, 10000)
        curve(c, find(c, log, 'Fit range'), 'range', 2, lambda i: X((t.a, t.b)[i]), lambda i: Y((t.a, t.b)[i]), 100)


@contract('C30', ['PlotDeviationLinearity.plot'], small=S2)
def deviation(c):
    T = linearity_tests(c)
    for t, log in zip(T, draw(c, 'PlotDeviationLinearity', T)):
        X = lambda i: c.at(t.u_p, i)
        Y = lambda i: c.at(t.dev, i)
        only(c, log, ['Data', 'Fit range'])
        curve(c, find(c, log, 'Data'), 'data', t.b - t.a + 1, lambda i: X(t.a + i), lambda i: Y(t.a + i), 100)
        curve(c, find(c, log, 'Fit range'), 'range', 2, lambda i: X((t.a, t.b)[i]), lambda i: Y((t.a, t.b)[i]), 100)


@contract('C30', ['PlotSNR.plot', 'PlotSNR.setup_figure'], small=S2, samples=30)
def snr(c):
    c.texts()
    T = []
    for k in range(2):
        t = make_test(c, k, temporal=True, **num(c, k, K=(0.1, 3), QE=(1, 90), sigma_d=(0.1, 3), DSNU1288=(0.1, 3),
                                                 PRNU1288=(0.1, 3), u_p_min=(1, 9), u_p_sat=(900, 9999)))
        c.assume(t.v['u_p_min'] < t.v['u_p_sat'])
        t.v['s2q'] = c.real('s2q_%d' % k, lo=0, rand=(0, 1))
        T.append(t)
    for t, log in zip(T, draw(c, 'PlotSNR', T)):
        v = t.v
        named = [x for x in log if x['kind'] == 'curve']
        only(c, named, ['Data', 'Theoretical', 'Ideal', 'Total SNR'])
        # no noise of the points is zero
        curve(c, find(c, log, 'Data'), 'data', t.n, lambda i: c.at(t.u_p, i),
              lambda i: c.div(c.at(t.u_y, i) - c.at(t.u_ydark, i), c.sqrt(c.at(t.s2_y, i))), 100)
        lines = [x for x in log if x['kind'] != 'curve']
        c.ensure('two lines', len(lines) == 2)
        line(c, lines[0], 'minimal photons', 'vertical', v['u_p_min'])
        line(c, lines[1], 'saturation', 'vertical', v['u_p_sat'])
        q = lambda x: c.div(v['QE'], 100) * x
        noise = lambda x: c.square(v['sigma_d']) + c.div(v['s2q'], c.square(v['K'])) + q(x)
        more = lambda x: c.square(v['DSNU1288']) + c.square(c.div(v['PRNU1288'], 100) * q(x))
        for nm, f in (('Theoretical', lambda x: c.div(q(x), c.sqrt(noise(x)))), ('Ideal', lambda x: c.sqrt(x)),
                      ('Total SNR', lambda x: c.div(q(x), c.sqrt(noise(x) + more(x))))):
            x = find(c, log, nm)
            n = c.len(x['x'])
            c.ensure(nm + ': starts at the minimum', c.eq(get(c, x['x'], 0), v['u_p_min'], scale=1))
            c.ensure(nm + ': within the range', c.land(n >= 2, c.exact(c.len(x['y']), n), c.forall(
                n, lambda i: c.land(get(c, x['x'], i) >= v['u_p_min'], get(c, x['x'], i) <= v['u_p_sat'] * (1 if c.is_sym else 1.001)))))
            c.ensure(nm + ': values', c.forall(n, lambda i: c.eq(get(c, x['y'], i), f(get(c, x['x'], i)), scale=100)))
            if nm == 'Ideal' and 'ymax' in x['axes'].limits:
                c.ensure('the ideal of every test is in view', get(c, x['y'], n - 1) <= x['axes'].limits['ymax'])


@contract('C30', ['PlotSNR.plot'], small=[{'n_0': 3}, {'n_0': 2}], samples=40, bounded='three measurement points')
def snr_noiseless_points(c):
    """points without noise are left out"""
    c.texts()
    t = make_test(c, 0, **num(c, 0, K=(0.1, 3), QE=(1, 90), sigma_d=(0.1, 3), DSNU1288=(0.1, 3), PRNU1288=(0.1, 3),
                              u_p_min=(1, 9), u_p_sat=(900, 9999)))
    c.assume(t.v['u_p_min'] < t.v['u_p_sat'])
    up, uy, ud = [c.seq(x, 3, rand=(0, 99)) for x in ('u_p', 'u_y', 'u_ydark')]
    zero = [c.choice('zero%d' % k, [False, True]) for k in range(3)]
    s2 = c.seq('s2', 3, lo=1, rand=(1, 9))
    z = [0 if zero[k] else c.at(s2, k) for k in range(3)]
    if not any(zero) or all(zero):
        z[1] = 0 if not any(zero) else c.at(s2, 1)
        zero[1] = not zero[1]
    sy = c.from_fn((3,), lambda i: c.ite(c.exact(i, 0), z[0], c.ite(c.exact(i, 1), z[1], z[2])))
    t.r.temporal.update({'u_p': up, 'u_y': uy, 'u_ydark': ud, 's2_y': sy})
    log = draw(c, 'PlotSNR', [t])[0]
    keep = [k for k in range(3) if not zero[k]]
    curve(c, find(c, log, 'Data'), 'data', len(keep), lambda i: c.at(up, keep[i]),
          lambda i: c.div(c.at(uy, keep[i]) - c.at(ud, keep[i]), c.sqrt(z[keep[i]])), 100)


SP = [{'H_0': 2, 'W_0': 2, 'H_1': 2, 'W_1': 3}, {'H_0': 3, 'W_0': 2, 'H_1': 2, 'W_1': 2}]


def spectrogram_prnu(c, name, rotate):
    T = []
    for k in range(2):
        t = make_test(c, k, spatial=1, **num(c, k, PRNU1288=(0.1, 3), sigma_2_y_stack=(0.1, 9)))
        c.assume(c.exact(t.L, t.L_dark) if c.is_sym else True)
        if not c.is_sym:
            t.L_dark = t.L
            t.r.spatial['L_dark'] = t.L
        t.mean = c.div(c.sum(t.H, lambda i: c.sum(t.W, lambda j: c.at(t.sum, i, j) - c.at(t.dark, i, j))), t.L * t.H * t.W)
        c.assume(t.mean > (0 if c.is_sym else 1))
        T.append(t)
    m = c.mod('process.routines')
    for t, log in zip(T, draw(c, name, T)):
        only(c, log, ['Data', '$PRNU_{1288}$', r'$\sigma^2_{y.stack}$'])
        img = c.from_fn((t.H, t.W), lambda i, j: c.div(c.at(t.sum, i, j) - c.at(t.dark, i, j), t.L))
        f = c.call(m.FFT1288, img, rotate)
        fx = c.call(m.GetFrecs, f)
        curve(c, find(c, log, 'Data'), 'spectrum', c.len(f), lambda i: c.at(fx, i), lambda i: c.sqrt(c.div(c.at(f, i), t.mean)), 100)
        line(c, find(c, log, '$PRNU_{1288}$'), 'PRNU', 'horizontal', t.v['PRNU1288'])
        line(c, find(c, log, r'$\sigma^2_{y.stack}$'), 'temporal noise', 'horizontal',
             c.div(100 * c.sqrt(t.v['sigma_2_y_stack']), t.mean))


def spectrogram_dsnu(c, name, rotate):
    T = [make_test(c, k, spatial=1, **num(c, k, DSNU1288_DN=(0.1, 3), sigma_2_y_stack_dark=(0.1, 9))) for k in range(2)]
    m = c.mod('process.routines')
    for t, log in zip(T, draw(c, name, T)):
        only(c, log, ['Data', '$DSNU_{1288.DN}$', r'$\sigma^2_{y.stack.dark}$'])
        f = c.call(m.FFT1288, t.dark, rotate)
        fx = c.call(m.GetFrecs, f)
        curve(c, find(c, log, 'Data'), 'spectrum', c.len(f), lambda i: c.at(fx, i),
              lambda i: c.sqrt(c.div(c.at(f, i), c.square(t.L_dark))), 100)
        line(c, find(c, log, '$DSNU_{1288.DN}$'), 'DSNU', 'horizontal', t.v['DSNU1288_DN'])
        line(c, find(c, log, r'$\sigma^2_{y.stack.dark}$'), 'temporal noise', 'horizontal', c.sqrt(t.v['sigma_2_y_stack_dark']))


for _n, _r in (('Horizontal', False), ('Vertical', True)):
    contract('C30', ['Plot%sSpectrogramPRNU.plot' % _n], small=SP, samples=30, name='%s_spectrogram_prnu' % _n.lower())(
        lambda c, n=_n, r=_r: spectrogram_prnu(c, 'Plot%sSpectrogramPRNU' % n, r))
    contract('C30', ['Plot%sSpectrogramDSNU.plot' % _n], small=SP, samples=30, name='%s_spectrogram_dsnu' % _n.lower())(
        lambda c, n=_n, r=_r: spectrogram_dsnu(c, 'Plot%sSpectrogramDSNU' % n, r))


def histogram(c, name, attr, model):
    T = []
    for k in range(2):
        t = make_test(c, k)
        t.n = c.size('n_%d' % k, 1, rand=(1, 6))
        t.h = {x: c.seq('%s_%d' % (x, k), t.n, rand=(1, 99)) for x in ('bins', 'values', 'model')}
        t.v = {attr: c.dict(t.h)}
        T.append(t)
    for t, log in zip(T, draw(c, name, T)):
        only(c, log, ['Data', 'Model'] if model else ['Data'])
        X = lambda i: c.at(t.h['bins'], i)
        x = find(c, log, 'Data')
        curve(c, x, 'data', t.n, X, lambda i: c.at(t.h['values'], i), 100)
        if 'ymax' in x['axes'].limits:
            c.ensure('every histogram is in view', c.forall(
                t.n, lambda i: c.implies(c.at(t.h['values'], i) >= 0, lambda: c.at(t.h['values'], i) <= x['axes'].limits['ymax'])))
        if model:
            curve(c, find(c, log, 'Model'), 'model', t.n, X, lambda i: c.at(t.h['model'], i), 100)


for _k in ('DSNU', 'PRNU'):
    contract('C30', ['PlotLogarithmicHistogram%s.plot' % _k], small=S2, samples=30, name='histogram_' + _k.lower())(
        lambda c, k=_k: histogram(c, 'PlotLogarithmicHistogram' + k, 'histogram_' + k, True))
    contract('C30', ['PlotAccumulatedLogHistogram%s.plot' % _k], small=S2, samples=30, name='accumulated_' + _k.lower())(
        lambda c, k=_k: histogram(c, 'PlotAccumulatedLogHistogram' + k, 'histogram_%s_accumulated' % k, False))


def profiles(c, name, vertical):
    c.texts()
    T = [make_test(c, k, spatial=1) for k in range(2)]
    for t, log in zip(T, draw_plain(c, name, T)):
        only(c, log, ['Mid', 'Min', 'Max', 'Mean'] * 2)
        n, m = (t.H, t.W) if vertical else (t.W, t.H)
        for title in ('PRNU', 'DSNU'):
            if title == 'DSNU':
                P = lambda i, j: c.div(c.at(t.dark, i, j), t.L_dark)
            else:
                # bright and dark stacks of the same number of images
                P = lambda i, j: c.div(c.at(t.sum, i, j) - c.at(t.dark, i, j), t.L)
            # pixel k of the profile, line l across it
            Q = (lambda k, l: P(k, l)) if vertical else (lambda k, l: P(l, k))
            for nm, f in (('Mid', lambda k: Q(k, c.floordiv(m, 2))), ('Min', lambda k: c.min(m, lambda l: Q(k, l))),
                          ('Max', lambda k: c.max(m, lambda l: Q(k, l))),
                          ('Mean', lambda k: c.div(c.sum(m, lambda l: Q(k, l)), m))):
                x = find(c, log, nm, title)
                pos, val = (lambda k: k), f
                if title == 'PRNU' and not c.decide(c.exact(t.L, t.L_dark)):
                    continue
                curve(c, x, '%s %s' % (title, nm), n, *((val, pos) if vertical else (pos, val)), scale=100)


contract('C30', ['PlotHorizontalProfile.plot', 'ProfileBase.get_profiles'], small=SP, samples=40, name='horizontal_profile')(
    lambda c: profiles(c, 'PlotHorizontalProfile', False))
contract('C30', ['PlotVerticalProfile.plot', 'ProfileBase.get_profiles'], small=SP, samples=40, name='vertical_profile')(
    lambda c: profiles(c, 'PlotVerticalProfile', True))


MASKS = [('none', []), ('mid', [(k, 2) for k in range(3)]), ('position', [(1, l) for l in range(4)]),
         ('scattered', [(0, 0), (0, 1), (1, 2), (2, 3)])]


def masked_profiles(c, name, vertical):
    """what is masked is left out; a masked middle line is replaced by the next"""
    c.texts()
    which, off = MASKS[c.choice('mask', [0, 1, 2, 3])]
    t = make_test(c, 0)
    n, m = 3, 4
    shape = (n, m) if vertical else (m, n)
    off = set(off)
    # position k of the profile, line l across it
    px = (lambda k, l: (k, l)) if vertical else (lambda k, l: (l, k))
    hidden = {px(k, l) for k, l in off}
    lit = c.array('sum', shape, 'int64', lo=0, hi=10 ** 6, rand=(500, 900))
    dark = c.array('sum_dark', shape, 'int64', lo=0, hi=10 ** 6, rand=(0, 90))
    mask = c.from_fn(shape, lambda i, j: c.lor(False, *[c.land(c.exact(i, a), c.exact(j, b)) for a, b in hidden]), 'bool')
    L, L_dark = 3, 3
    t.r.spatial.update({'sum': c.masked(lit, mask), 'sum_dark': c.masked(dark, mask), 'L': L, 'L_dark': L_dark})
    log = draw(c, name, [t])[0]
    for title in ('PRNU', 'DSNU'):
        if title == 'DSNU':
            Q = lambda k, l: c.div(c.at(dark, *px(k, l)), L_dark)
        else:
            Q = lambda k, l: c.div(c.at(lit, *px(k, l)) - c.at(dark, *px(k, l)), L)
        seen = {k: [l for l in range(m) if (k, l) not in off] for k in range(n)}
        pos = [k for k in range(n) if seen[k]]
        x = 3 if which == 'mid' else 2
        mid = [k for k in range(n) if (k, x) not in off]

        def mean(k):
            r = 0
            for l in seen[k]:
                r = r + Q(k, l)
            return c.div(r, len(seen[k]))
        for nm, at, f in (('Mid', mid, lambda k: Q(k, x)), ('Mean', pos, mean)):
            P, V = (lambda i: at[i]), (lambda i: f(at[i]))
            z = find(c, log, nm, title)
            curve(c, z, '%s %s' % (title, nm), len(at), *((V, P) if vertical else (P, V)), scale=100)
        for nm in ('Min', 'Max'):
            z = find(c, log, nm, title)
            P, V = (z['y'], z['x']) if vertical else (z['x'], z['y'])
            c.ensure('%s %s: length' % (title, nm), c.land(c.exact(size(c, P), len(pos)), c.exact(size(c, V), len(pos))))
            for i, k in enumerate(pos):
                v, q = get(c, V, i), [Q(k, l) for l in seen[k]]
                name = '%s %s: position %d' % (title, nm, i)
                c.ensure(name, c.exact(get(c, P, i), k))
                for x in q:
                    c.ensure(name + ': bound', c.lor(v < x if nm == 'Min' else v > x, c.eq(v, x, scale=100)))
                c.ensure(name + ': attained', c.lor(*[c.eq(v, x, scale=100) for x in q]))


def profile_limits(c, name, vertical):
    """the limits of the gray value axis leave out no test"""
    c.texts()
    T = [make_test(c, k, spatial=1) for k in range(2)]
    d = 'x' if vertical else 'y'
    for t, log in zip(T, draw_plain(c, name, T)):
        n, m = (t.H, t.W) if vertical else (t.W, t.H)
        for title in ('PRNU', 'DSNU'):
            if title == 'DSNU':
                P = lambda i, j: c.div(c.at(t.dark, i, j), t.L_dark)
            else:
                P = lambda i, j: c.div(c.at(t.sum, i, j) - c.at(t.dark, i, j), t.L)
            Q = (lambda k, l: P(k, l)) if vertical else (lambda k, l: P(l, k))
            lim = find(c, log, 'Mean', title)['axes'].limits
            f = {'Mean': lambda k: c.div(c.sum(m, lambda l: Q(k, l)), m), 'Min': lambda k: c.min(m, lambda l: Q(k, l)),
                 'Max': lambda k: c.max(m, lambda l: Q(k, l))}
            avg = lambda nm: c.div(c.sum(n, f[nm]), n)
            # the mean of the bright profile, the lowest and highest dark profile
            lo, hi = (avg('Mean'),) * 2 if title == 'PRNU' else (avg('Min'), avg('Max'))
            if title == 'PRNU' and not c.is_sym and t.L != t.L_dark:
                continue
            if title == 'PRNU' and c.is_sym:
                c.assume(c.exact(t.L, t.L_dark))
            if d + 'min' in lim:
                c.ensure(title + ': above the lower limit', c.implies(lo >= 0, lambda: lim[d + 'min'] <= lo))
            if d + 'max' in lim:
                c.ensure(title + ': below the upper limit', c.implies(hi >= 0, lambda: hi <= lim[d + 'max']))


contract('C30', ['PlotHorizontalProfile.rearrange', 'ProfileBase.get_profiles'], small=SP, samples=20, name='horizontal_limits')(
    lambda c: profile_limits(c, 'PlotHorizontalProfile', False))
contract('C30', ['PlotVerticalProfile.rearrange', 'ProfileBase.get_profiles'], small=SP, samples=20, name='vertical_limits')(
    lambda c: profile_limits(c, 'PlotVerticalProfile', True))
contract('C30', ['PlotHorizontalProfile.plot', 'ProfileBase._get_image_profiles'], samples=30, name='horizontal_profile_masked',
         bounded='four masks of 4x3 pixels, stacks of three')(lambda c: masked_profiles(c, 'PlotHorizontalProfile', False))
contract('C30', ['PlotVerticalProfile.plot', 'ProfileBase._get_image_profiles'], samples=30, name='vertical_profile_masked',
         bounded='four masks of 3x4 pixels, stacks of three')(lambda c: masked_profiles(c, 'PlotVerticalProfile', True))


class Bare:
    """a test as far as the plotting object knows it"""


def recorders(c, log, k):
    out = []
    for nm in ('a', 'b', 'c')[:k]:
        class P:
            name = 'plot ' + nm

            def __init__(self, figure):
                self.figure = figure
                log.append((self.name, 'new', figure))

            def plot(self, test):
                log.append((self.name, 'plot', test, test.id))

            def rearrange(self):
                log.append((self.name, 'rearrange'))
        out.append(P)
    return out


@contract('C30', ['Plotting1288.__init__', 'Plotting1288.plot'], samples=40, bounded='at most three tests and three plots')
def several_tests(c):
    win = c.pyplot()
    log = win.log
    n, k = c.choice('tests', [1, 2, 3, 0]), c.choice('plots', [1, 2, 3])
    given = c.choice('default', [False, True])
    kinds = [c.choice('id%d' % i, ['none', 'given', 'zero', 'same']) for i in range(n)]
    T = []
    for i, kind in enumerate(kinds):
        t = Bare()
        if kind != 'none':
            t.id = {'given': 7 * (3 - i), 'zero': 0, 'same': 5}[kind]
        T.append(t)
    plots = recorders(c, log, k)
    M = c.mod('process.plotting')
    if given:
        c.patch_both('process.plotting', 'EVMA1288plots', plots)
    p = c.call(M.Plotting1288, *T)
    c.call(p.plot, *([] if given else plots))
    want = []
    for q in plots:
        want.append((q.name, 'new'))
        want += [(q.name, 'plot', t) for t in T]
        want.append((q.name, 'rearrange'))
    want.append('show')
    got = [x if x == 'show' else x[:2] if x[1] != 'plot' else x[:3] for x in log]
    c.ensure('every test is plotted in order, in every plot', got == want)
    figs = [x[2] for x in log if x != 'show' and x[1] == 'new']
    c.ensure('each plot has its figure', len({f.number for f in figs}) == len(figs) and len(figs) == k)
    c.ensure('named after the plot', [f.title for f in figs] == [q.name for q in plots])
    ids = [t.id for t in T]
    made = [x for x, kind in zip(ids, kinds) if kind in ('none', 'zero')]
    c.ensure('ids tell tests apart', len(set(ids)) == n - max(0, kinds.count('same') - 1) and all(ids) and len(set(made)) == len(made))
    c.ensure('a given id is kept', all(t.id == 7 * (3 - i) for i, t in enumerate(T) if kinds[i] == 'given')
             and all(t.id == 5 for t, kind in zip(T, kinds) if kind == 'same'))
    c.ensure('ids are there when plotting', all(x[3] == x[2].id for x in log if x != 'show' and x[1] == 'plot'))


STANDARD = ['PTC', 'SNR', 'Sensitivity', 'UyDark', 'Linearity', 'DeviationLinearity', 'HorizontalSpectrogramPRNU',
            'HorizontalSpectrogramDSNU', 'VerticalSpectrogramPRNU', 'VerticalSpectrogramDSNU', 'LogarithmicHistogramDSNU',
            'LogarithmicHistogramPRNU', 'AccumulatedLogHistogramDSNU', 'AccumulatedLogHistogramPRNU', 'HorizontalProfile',
            'VerticalProfile']


@contract('C30', ['EVMA1288plots'])
def standard_plots(c):
    M = c.mod('process.plotting')
    L = [x for x in M.EVMA1288plots]
    for nm in STANDARD:
        c.ensure(nm, len([x for x in L if x is getattr(M, 'Plot' + nm)]) == 1)
    names = [c.text(x.name) for x in L]
    c.ensure('names tell plots apart', len(set(names)) == len(names) and all(names))
