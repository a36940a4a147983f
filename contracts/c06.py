from dv.spec import contract

T = ['Data1288.__init__', 'Data1288._get_temporal', 'Data1288._get_temporal_data']


def spatial(c):
    z = lambda p: c.dict({'L': 3, 'sum': c.array('ssum' + p, (2, 2), 'int64', 0, 1000),
                          'pvar': c.array('spvar' + p, (2, 2), 'int64', 0, 1000)})
    return c.dict([(5.0, c.dict([(0.0, z('d')), (8.0, z('b'))]))])


def _photons(c, shape, top):
    """photon counts of bright points: positive, also below one"""
    faint = not c.is_sym and c.rng.random() < 0.3
    return c.array('photons', shape, lo=c.q(1, 1024), rand=(0.01, 2.5) if faint else (1, top))


def _point(c, tab, *i):
    return c.dict({k: c.at(tab[k], *i) for k in ('sum', 'pvar', 'dmean')})


def _table(c, name, shape):
    return {'sum': c.array('sum' + name, shape, 'int64', 0, 10 ** 12, rand=(0, 10000)),
            'pvar': c.array('pvar' + name, shape, 'int64', 0, 10 ** 12, rand=(0, 100000)),
            'dmean': c.array('dmean' + name, shape, rand=(-3, 3))}


def _expect(c, tab, P, *i):
    mean = c.div(c.at(tab['sum'], *i), 2 * P)
    var = c.div(c.at(tab['pvar'], *i), 4 * P) - c.div(c.square(c.at(tab['dmean'], *i)), 2)
    return mean, var


def _run(c, data, w=2, h=2):
    D = c.cls('process.data', 'Data1288')
    return c.call(D, c.dict({'width': w, 'height': h, 'temporal': data, 'spatial': spatial(c)})).data['temporal']


def _refused(c, data):
    D = c.cls('process.data', 'Data1288')
    k, x = c.outcome(D, c.dict({'width': 2, 'height': 2, 'temporal': data, 'spatial': spatial(c)}))
    c.note(k, x)
    c.ensure('refused', k == 'exc' and isinstance(x, ValueError))


@contract('C06', T, small=[{'T': 2, 'W': 2}, {'T': 3, 'W': 2}])
def series(c):
    """two or more exposure times, each with its own number of bright points"""
    n, W = c.size('T', 2, rand=(2, 4)), c.size('W', 1, rand=(1, 4))
    w, h = c.int('width', 1, rand=(1, 9)), c.int('height', 1, rand=(1, 9))
    tex = c.seq('tex', n, lo=1, rand=(1, 1000))
    c.increasing(tex)
    nb = c.seq('nb', n, 'int64', 1, W)
    ph = _photons(c, (n, W), 5000)
    c.increasing(ph)
    dk, br = _table(c, 'd', (n,)), _table(c, 'b', (n, W))
    data = c.mapping(n, lambda e: c.at(tex, e), lambda e: c.mapping_plus(
        [(0.0, _point(c, dk, e))], c.at(nb, e), lambda k: c.at(ph, e, k), lambda k: _point(c, br, e, k)))
    t = _run(c, data, w, h)
    c.ensure('number of exposures', c.exact(c.len(t['texp']), n))
    tot = c.sum(n, lambda e: c.at(nb, e))
    for k in ('u_ydark', 's2_ydark'):
        c.ensure('length of ' + k, c.exact(c.len(t[k]), n))
    for k in ('u_p', 'u_y', 's2_y'):
        c.ensure('length of ' + k, c.exact(c.len(t[k]), tot))
    e = c.int('e', 0, rand=(0, int(n) - 1) if not c.is_sym else None)
    c.assume(e < n)
    k = c.int('k', 0, rand=(0, int(W) - 1) if not c.is_sym else None)
    c.assume(k < c.at(nb, e))
    m, v = _expect(c, dk, w * h, e)
    c.ensure('exposure', c.exact(c.at(t['texp'], e), c.at(tex, e)))
    c.ensure('dark mean', c.eq(c.at(t['u_ydark'], e), m))
    c.ensure('dark variance', c.eq(c.at(t['s2_ydark'], e), v, scale=10000))
    i = c.sum(e, lambda x: c.at(nb, x)) + k
    m, v = _expect(c, br, w * h, e, k)
    c.ensure('photons', c.exact(c.at(t['u_p'], i), c.at(ph, e, k)))
    c.ensure('mean', c.eq(c.at(t['u_y'], i), m))
    c.ensure('variance', c.eq(c.at(t['s2_y'], i), v, scale=10000))


@contract('C06', T, small=[{'W': 1}, {'W': 2}, {'W': 3}])
def single(c):
    """a single exposure time: dark values and exposure repeated"""
    W = c.size('W', 1, rand=(1, 6))
    w, h = c.int('width', 1, rand=(1, 9)), c.int('height', 1, rand=(1, 9))
    tex = c.real('tex', lo=1)
    ph = _photons(c, W, 5000)
    c.increasing(ph)
    dk, br = _table(c, 'd', (1,)), _table(c, 'b', (W,))
    data = c.dict([(tex, c.mapping_plus([(0.0, _point(c, dk, 0))], W, lambda k: c.at(ph, k), lambda k: _point(c, br, k)))])
    t = _run(c, data, w, h)
    for k in ('texp', 'u_p', 'u_y', 's2_y', 'u_ydark', 's2_ydark'):
        c.ensure('length of ' + k, c.exact(c.len(t[k]), W))
    k = c.int('k', 0, rand=(0, int(W) - 1) if not c.is_sym else None)
    c.assume(k < W)
    m, v = _expect(c, dk, w * h, 0)
    c.ensure('exposure', c.exact(c.at(t['texp'], k), tex))
    c.ensure('dark mean', c.eq(c.at(t['u_ydark'], k), m))
    c.ensure('dark variance', c.eq(c.at(t['s2_ydark'], k), v, scale=10000))
    m, v = _expect(c, br, w * h, k)
    c.ensure('photons', c.exact(c.at(t['u_p'], k), c.at(ph, k)))
    c.ensure('mean', c.eq(c.at(t['u_y'], k), m))
    c.ensure('variance', c.eq(c.at(t['s2_y'], k), v, scale=10000))


@contract('C06', T, small=[{'W': 1}, {'W': 2}])
def any_order_photons(c):
    """a single exposure time, its points inserted in any order: sorted
    photon counts, every inserted point found with its own values"""
    W = c.size('W', 1, rand=(1, 6))
    ph = _photons(c, W, 5000)
    c.assume(c.forall(W, lambda i: c.forall(W, lambda j: c.lor(c.exact(i, j), c.lnot(c.exact(c.at(ph, i), c.at(ph, j)))))))
    dk, br = _table(c, 'd', (1,)), _table(c, 'b', (W,))
    data = c.dict([(7.0, c.mapping_plus([(0.0, _point(c, dk, 0))], W, lambda k: c.at(ph, k), lambda k: _point(c, br, k)))])
    t = _run(c, data)
    c.ensure('length', c.exact(c.len(t['u_p']), W))
    k = c.int('k', 1, rand=(1, int(W) - 1) if not c.is_sym and W > 1 else None)
    c.assume(k < W)
    c.ensure('sorted', c.at(t['u_p'], k - 1) < c.at(t['u_p'], k))
    j = c.int('j', 0, rand=(0, int(W) - 1) if not c.is_sym else None)
    c.assume(j < W)
    m, v = _expect(c, br, 4, j)
    c.ensure('every point with its own values', c.exists(W, lambda i: c.land(
        c.exact(c.at(t['u_p'], i), c.at(ph, j)), c.eq(c.at(t['u_y'], i), m), c.eq(c.at(t['s2_y'], i), v, scale=10000))))


@contract('C06', T, small=[{'T': 2}, {'T': 3}])
def any_order_exposures(c):
    """exposure times inserted in any order, each with one bright point"""
    n = c.size('T', 2, rand=(2, 6))
    tex = c.seq('tex', n, lo=1, rand=(1, 1000))
    c.assume(c.forall(n, lambda i: c.forall(n, lambda j: c.lor(c.exact(i, j), c.lnot(c.exact(c.at(tex, i), c.at(tex, j)))))))
    ph = _photons(c, n, 5000)
    dk, br = _table(c, 'd', (n,)), _table(c, 'b', (n,))
    data = c.mapping(n, lambda e: c.at(tex, e), lambda e: c.dict([(0.0, _point(c, dk, e)), (c.at(ph, e), _point(c, br, e))]))
    t = _run(c, data)
    for k in ('texp', 'u_ydark', 's2_ydark', 'u_p', 'u_y', 's2_y'):
        c.ensure('length of ' + k, c.exact(c.len(t[k]), n))
    k = c.int('k', 1, rand=(1, int(n) - 1) if not c.is_sym else None)
    c.assume(k < n)
    c.ensure('sorted', c.at(t['texp'], k - 1) < c.at(t['texp'], k))
    e = c.int('e', 0, rand=(0, int(n) - 1) if not c.is_sym else None)
    c.assume(e < n)
    (m, v), (md, vd) = _expect(c, br, 4, e), _expect(c, dk, 4, e)
    c.ensure('every exposure with its own values', c.exists(n, lambda i: c.land(
        c.exact(c.at(t['texp'], i), c.at(tex, e)), c.exact(c.at(t['u_p'], i), c.at(ph, e)),
        c.eq(c.at(t['u_y'], i), m), c.eq(c.at(t['s2_y'], i), v, scale=10000),
        c.eq(c.at(t['u_ydark'], i), md), c.eq(c.at(t['s2_ydark'], i), vd, scale=10000))))


@contract('C06', T, bounded='two exposure times with two bright points each, in any insertion order', samples=200)
def any_order(c):
    tex = [c.real('t%d' % i, lo=1, rand=(1, 100)) for i in range(2)]
    c.assume(c.lnot(c.exact(tex[0], tex[1])))
    ph = _photons(c, (2, 2), 50)
    c.assume(c.land(*[c.lnot(c.exact(c.at(ph, e, 0), c.at(ph, e, 1))) for e in range(2)]))
    dk, br = _table(c, 'd', (2,)), _table(c, 'b', (2, 2))
    pos = c.choice('dark position', [0, 1, 2])

    def inner(e):
        l = [(c.at(ph, e, k), _point(c, br, e, k)) for k in range(2)]
        l.insert((pos + e) % 3, (0.0, _point(c, dk, e)))
        return c.dict(l)
    t = _run(c, c.dict([(tex[e], inner(e)) for e in range(2)]))
    for k, l in (('texp', 2), ('u_ydark', 2), ('s2_ydark', 2), ('u_p', 4), ('u_y', 4), ('s2_y', 4)):
        c.ensure('length of ' + k, c.exact(c.len(t[k]), l))
    for e in range(2):
        r = 1 if c.decide(tex[1 - e] < tex[e]) else 0
        m, v = _expect(c, dk, 4, e)
        c.ensure('exposure', c.exact(c.at(t['texp'], r), tex[e]))
        c.ensure('dark mean', c.eq(c.at(t['u_ydark'], r), m))
        c.ensure('dark variance', c.eq(c.at(t['s2_ydark'], r), v, scale=10000))
        for k in range(2):
            i = 2 * r + (1 if c.decide(c.at(ph, e, 1 - k) < c.at(ph, e, k)) else 0)
            m, v = _expect(c, br, 4, e, k)
            c.ensure('photons', c.exact(c.at(t['u_p'], i), c.at(ph, e, k)))
            c.ensure('mean', c.eq(c.at(t['u_y'], i), m))
            c.ensure('variance', c.eq(c.at(t['s2_y'], i), v, scale=10000))


@contract('C06', T, small=[{'T': 1, 'W': 1}, {'T': 2, 'W': 1}])
def refuse_no_dark(c):
    n, W = c.size('T', 1, rand=(1, 4)), c.size('W', 1, rand=(1, 4))
    tex = c.seq('tex', n, lo=1, rand=(1, 1000))
    c.increasing(tex)
    ph = _photons(c, (n, W + 1), 5000)
    c.increasing(ph)
    bad = c.int('bad', 0, rand=(0, int(n) - 1) if not c.is_sym else None)
    c.assume(bad < n)
    br = _table(c, 'b', (n, W + 1))

    def inner(e):
        if c.decide(c.exact(e, bad)):
            return c.mapping(W + 1, lambda k: c.at(ph, e, k), lambda k: _point(c, br, e, k))
        return c.mapping_plus([(0.0, _point(c, br, e, 0))], W, lambda k: c.at(ph, e, k), lambda k: _point(c, br, e, k))
    data = c.mapping(n, lambda e: c.at(tex, e), inner)
    _refused(c, data)


@contract('C06', T, small=[{'T': 1, 'W': 1}, {'T': 2, 'W': 1}])
def refuse_no_bright(c):
    n, W = c.size('T', 1, rand=(1, 4)), c.size('W', 1, rand=(1, 4))
    tex = c.seq('tex', n, lo=1, rand=(1, 1000))
    c.increasing(tex)
    ph = _photons(c, (n, W), 5000)
    c.increasing(ph)
    bad = c.int('bad', 0, rand=(0, int(n) - 1) if not c.is_sym else None)
    c.assume(bad < n)
    dk, br = _table(c, 'd', (n,)), _table(c, 'b', (n, W))
    data = c.mapping(n, lambda e: c.at(tex, e), lambda e: c.mapping_plus(
        [(0.0, _point(c, dk, e))], c.ite(c.exact(e, bad), 0, W), lambda k: c.at(ph, e, k), lambda k: _point(c, br, e, k)))
    _refused(c, data)
