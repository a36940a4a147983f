from dv.spec import contract


def point(c, p, M, N, kind='int64'):
    """one spatial measurement point: reduced stack of L images"""
    L = c.int('L' + p, 2, rand=(2, 40))
    s = c.array('sum' + p, (M, N), kind, 0, 2 ** 40, rand=(0, 100000))
    v = c.array('pvar' + p, (M, N), kind, 0, 2 ** 50, rand=(0, 10000000))
    return {'L': L, 'sum': s, 'pvar': v}


def temporal(c):
    d = lambda k: c.dict({'sum': c.int('ts' + k, 0, rand=(0, 1000)), 'pvar': c.int('tp' + k, 0, rand=(0, 1000)),
                          'dmean': c.real('td' + k, rand=(0, 3))})
    return c.dict({5.0: c.dict({0.0: d('0'), 7.0: d('1')})})


def _spatial(c):
    M, N = c.size('M', 2), c.size('N', 2)
    t, u = c.real('texp', pos=True), c.real('photons', pos=True)
    b, d = point(c, '', M, N), point(c, '_dark', M, N)
    if c.bool('dark first'):
        e = c.dict([(0.0, c.dict(d)), (u, c.dict(b))])
    else:
        e = c.dict([(u, c.dict(b)), (0.0, c.dict(d))])
    D = c.cls('process.data', 'Data1288')
    o = c.call(D, c.dict({'width': N, 'height': M, 'temporal': temporal(c), 'spatial': c.dict([(t, e)])}))
    return M, N, t, u, b, d, o.data['spatial']


def _stats(c, p, M, N, d, r):
    s, pv, L = d['sum'], d['pvar'], d['L']
    avg = lambda i, j: c.div(c.at(s, i, j), L)
    mean = c.div(c.sum(M, lambda i: c.sum(N, lambda j: avg(i, j))), M * N)
    rowm = lambda i: c.div(c.sum(N, lambda j: avg(i, j)), N)
    colm = lambda j: c.div(c.sum(M, lambda i: avg(i, j)), M)
    vm = c.div(c.sum(M, lambda i: c.sum(N, lambda j: c.div(c.at(pv, i, j), L * L * (L - 1)))), M * N)
    c.ensure('mean', c.eq(r['avg_mean' + p], mean))
    c.ensure('temporal', c.eq(r['var_mean' + p], vm))
    tot = c.div(c.sum(M, lambda i: c.sum(N, lambda j: c.square(avg(i, j) - mean))), M * N - 1)
    sc = tot + mean * mean * c.q(1, 10 ** 6)
    c.ensure('total variance', c.eq(r['avg_var' + p], tot, scale=sc))
    cav = c.div(c.sum(N, lambda j: c.square(colm(j) - mean)), N) - c.div(vm, L * M)
    rav = c.div(c.sum(M, lambda i: c.square(rowm(i) - mean)), M) - c.div(vm, L * N)
    c.ensure('column variance', c.eq(r['avg_var_cav' + p], cav, scale=sc + vm))
    c.ensure('row variance', c.eq(r['avg_var_rav' + p], rav, scale=sc + vm))
    c.ensure('own L', c.exact(r['L' + p], L))
    c.ensure('own rows', c.exact(r['M' + p], M))
    c.ensure('own columns', c.exact(r['N' + p], N))
    c.ensure('own sum', c.land(*[c.exact(x, y) for x, y in zip(c.shape(r['sum' + p]), (M, N))]))
    c.ensure('own sum values', c.forall(M, lambda i: c.forall(N, lambda j: c.exact(c.at(r['sum' + p], i, j), c.at(s, i, j)))))


SM = [{'M': 2, 'N': 2}, {'M': 2, 'N': 3}]


@contract('C07', ['Data1288.__init__', '_get_spatial', '_get_spatial_data'], small=SM)
def bright(c):
    M, N, t, u, b, d, r = _spatial(c)
    _stats(c, '', M, N, b, r)
    c.ensure('exposure', c.exact(r['texp'], t))
    c.ensure('photons', c.exact(r['u_p'], u))


@contract('C07', ['Data1288.__init__', '_get_spatial', '_get_spatial_data'], small=SM)
def dark(c):
    M, N, t, u, b, d, r = _spatial(c)
    _stats(c, '_dark', M, N, d, r)


@contract('C07', ['Data1288._get_spatial'], small=[{'M': 2, 'N': 2, 'nexp': 0}, {'M': 2, 'N': 2, 'nexp': 2}])
def refuse_exposures(c):
    """zero, two or more exposure times"""
    M, N = c.size('M', 2), c.size('N', 2)
    n = c.size('nexp', 0, rand=(0, 4))
    c.assume(c.lnot(c.exact(n, 1)))
    b, d = point(c, '', M, N), point(c, '_dark', M, N)
    ex = c.seq('exposures', n, lo=1, rand=(1, 100))
    c.increasing(ex)
    s = c.mapping(n, lambda i: c.at(ex, i), lambda i: c.dict([(0.0, c.dict(d)), (7.0, c.dict(b))]))
    k, x = c.outcome(c.cls('process.data', 'Data1288'),
                     c.dict({'width': N, 'height': M, 'temporal': temporal(c), 'spatial': s}))
    c.note(k, x)
    c.ensure('refused', k == 'exc' and isinstance(x, ValueError))


@contract('C07', ['Data1288._get_spatial'],
          small=[{'M': 2, 'N': 2, 'np': 0}, {'M': 2, 'N': 2, 'np': 1}, {'M': 2, 'N': 2, 'np': 2}, {'M': 2, 'N': 2, 'np': 3}])
def refuse_photons(c):
    """photon counts other than one dark and one bright"""
    M, N = c.size('M', 2), c.size('N', 2)
    n = c.size('np', 0, rand=(0, 4))
    b = point(c, '', M, N)
    ph = c.seq('photons', n, lo=0, rand=(0, 100))
    c.increasing(ph)
    hasdark = c.exists(n, lambda i: c.exact(c.at(ph, i), 0))
    c.assume(c.lnot(c.land(c.exact(n, 2), hasdark)))
    e = c.mapping(n, lambda i: c.at(ph, i), lambda i: c.dict(b))
    k, x = c.outcome(c.cls('process.data', 'Data1288'),
                     c.dict({'width': N, 'height': M, 'temporal': temporal(c), 'spatial': c.dict([(9.0, e)])}))
    c.note(k, x)
    c.ensure('refused', k == 'exc' and isinstance(x, ValueError))
