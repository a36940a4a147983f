from dv.spec import contract

SM = [{'L': 2, 'M': 1, 'N': 2}, {'L': 3, 'M': 2, 'N': 1}, {'L': 1, 'M': 1, 'N': 1}]


def _reduce(c, dt):
    L = c.size('L', 1, 1000, rand=(1, 7))
    M, N = c.size('M', rand=(1, 4)), c.size('N', rand=(1, 4))
    y = c.array('y', (L, M, N), dt)
    old = c.snapshot(y)
    imgs = c.pylist(L, lambda l: y[l])
    r = c.call(c.mod('process.routines').get_int_imgs, imgs)
    return L, M, N, y, old, r


def _check(c, dt):
    L, M, N, y, old, r = _reduce(c, dt)
    c.ensure('L', c.exact(r['L'], L))
    c.ensure('sum shape', c.same(c.shape(r['sum']), (M, N)))
    c.ensure('pvar shape', c.same(c.shape(r['pvar']), (M, N)))
    c.ensure('sum integer', c.is_int(r['sum']))
    c.ensure('pvar integer', c.is_int(r['pvar']))
    S = lambda i, j: c.sum(L, lambda l: c.at(y, l, i, j))
    Q = lambda i, j: c.sum(L, lambda l: c.square(c.at(y, l, i, j)))
    c.ensure('sum', c.forall(M, lambda i: c.forall(N, lambda j: c.exact(c.at(r['sum'], i, j), S(i, j)))))
    c.ensure('pseudo-variance', c.forall(M, lambda i: c.forall(N, lambda j: c.exact(
        c.at(r['pvar'], i, j), L * (L * Q(i, j) - c.square(S(i, j)))))))
    mean = lambda l: c.div(c.sum(M, lambda i: c.sum(N, lambda j: c.at(y, l, i, j))), M * N)
    c.ensure('mean differences', c.eq(r['dmean'], mean(L - 1) - mean(0), scale=mean(0)))
    c.ensure('images unchanged', c.same(y, old))


@contract('C03', ['get_int_imgs'], small=SM, overflow=True)
def uint16(c):
    _check(c, 'uint16')


@contract('C03', ['get_int_imgs'], small=SM, overflow=True)
def uint8(c):
    _check(c, 'uint8')


@contract('C03', ['get_int_imgs'], small=SM[:2], overflow=True)
def int64(c):
    """images already of the accumulator type (no copy by a type change)"""
    L = c.size('L', 2, 1000, rand=(1, 7))
    M, N = c.size('M', rand=(1, 4)), c.size('N', rand=(1, 4))
    y = c.array('y', (L, M, N), 'int64', 0, 65535)
    old = c.snapshot(y)
    imgs = c.pylist(L, lambda l: y[l])
    r = c.call(c.mod('process.routines').get_int_imgs, imgs)
    S = lambda i, j: c.sum(L, lambda l: c.at(old, l, i, j))
    c.ensure('sum', c.forall(M, lambda i: c.forall(N, lambda j: c.exact(c.at(r['sum'], i, j), S(i, j)))))
    c.ensure('images unchanged', c.same(y, old))
