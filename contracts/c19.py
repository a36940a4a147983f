from dv.spec import contract

SM = [{'M': 1, 'N': 2}, {'M': 2, 'N': 2}, {'M': 2, 'N': 3}]


def spectrum(c, r, at, rows, cols, n):
    """r is the mean power spectrum of the rows x cols image at"""
    mean = c.div(c.sum(rows, lambda i: c.sum(cols, lambda j: at(i, j))), rows * cols)

    def power(i, k):
        z = lambda j: at(i, j) - mean
        re = c.sum(cols, lambda j: z(j) * c.cos2pi(k, j, cols))
        im = c.sum(cols, lambda j: z(j) * c.sin2pi(k, j, cols))
        return c.square(re) + c.square(im)
    c.ensure('bins up to half the line length', c.exact(c.len(r), c.floordiv(cols, 2) + 1))
    k = c.int('k', 0, rand=(0, int(cols) // 2) if not c.is_sym else None)
    c.assume(2 * k <= cols)
    want = c.div(c.sum(rows, lambda i: power(i, k)), rows * cols * n * n)
    c.ensure('power', c.eq(c.at(r, k), want, scale=1e-3 if c.is_sym else 1e-3 * power_scale(at, rows, cols)))


def power_scale(at, rows, cols):
    return max(abs(float(at(i, j))) for i in range(rows) for j in range(cols)) ** 2 + 1e-9


def plain(c, dtype, lo, hi, rotate):
    M, N = c.size('M', 1, rand=(1, 5)), c.size('N', 1, rand=(1, 7))
    img = c.array('img', (M, N), dtype, lo, hi, rand=(0, 60) if dtype == 'int64' else None)
    n = c.int('n', 1, rand=(1, 9))
    x0 = c.snapshot(img)
    f = c.mod('process.routines').FFT1288
    r = c.call(f, img, rotate=True, n=n) if rotate else c.call(f, img, n=n)
    if rotate:
        spectrum(c, r, lambda i, j: c.at(img, j, i), N, M, n)
    else:
        spectrum(c, r, lambda i, j: c.at(img, i, j), M, N, n)
    c.ensure('image unchanged', c.same(img, x0))


@contract('C19', ['FFT1288'], small=SM, samples=150)
def lines(c):
    plain(c, 'int64', -2 ** 50, 2 ** 50, False)


@contract('C19', ['FFT1288'], small=SM, samples=150)
def columns(c):
    plain(c, 'int64', -2 ** 50, 2 ** 50, True)


@contract('C19', ['FFT1288'], small=SM, samples=100)
def small_integers(c):
    plain(c, 'uint8', 0, 255, False)


@contract('C19', ['FFT1288'], small=SM, samples=100)
def floats(c):
    plain(c, 'float64', -1000, 1000, False)


def row_wise(c, at, used, M, N):
    """the compressed image of concrete masks: list of rows of pixel positions"""
    rows = [[j for j in range(N) if used(i, j)] for i in range(M)]
    rows = [(i, r) for i, r in enumerate(rows) if r]
    cols = min([len(r) for i, r in rows] + [N])
    return [[(i, j) for j in r[:cols]] for i, r in rows], cols


def masked(c, M, N, rotate):
    """masked images of the given shape, all masks"""
    img = c.array('img', (M, N), 'int64', -2 ** 50, 2 ** 50, rand=(0, 60))
    mask = c.array('mask', (M, N), 'bool')
    used = [[c.decide(c.lnot(c.at(mask, i, j))) for j in range(N)] for i in range(M)]
    if rotate:
        rows, cols = row_wise(c, None, lambda i, j: used[j][i], N, M)
        rows = [[(j, i) for i, j in r] for r in rows]
    else:
        rows, cols = row_wise(c, None, lambda i, j: used[i][j], M, N)
    c.assume(bool(rows))
    arg = c.masked(img, mask)
    x0 = c.snapshot(img)
    n = c.int('n', 1, rand=(1, 9))
    f = c.mod('process.routines').FFT1288
    r = c.call(f, arg, rotate=True, n=n) if rotate else c.call(f, arg, n=n)
    c.ensure('bins up to half the line length', c.exact(c.len(r), cols // 2 + 1))
    c.ensure('image unchanged', c.same(img, x0))
    L = len(rows)
    val = lambda a, b: c.at(img, *rows[int(a)][int(b)])
    mean = c.div(sum(val(a, b) for a in range(L) for b in range(cols)), L * cols)
    for k in range(cols // 2 + 1):
        tot = 0
        for a in range(L):
            tot = tot + c.square(sum((val(a, b) - mean) * c.cos2pi(k, b, cols) for b in range(cols))) \
                + c.square(sum((val(a, b) - mean) * c.sin2pi(k, b, cols) for b in range(cols)))
        c.ensure('power %d' % k, c.eq(c.at(r, k), c.div(tot, L * cols * n * n),
                                      scale=None if c.is_sym else 1e-3 * power_scale(val, L, cols)))


WHY = 'masked images of this shape, symbolic contents, every mask: row by row compression is a data dependent in-place move'


@contract('C19', ['FFT1288', '_row_wise_compress'], bounded=WHY + ' (2x2)', samples=150)
def masked_2_2(c):
    masked(c, 2, 2, False)


@contract('C19', ['FFT1288', '_row_wise_compress'], bounded=WHY + ' (2x3)', samples=300)
def masked_2_3(c):
    masked(c, 2, 3, False)


@contract('C19', ['FFT1288', '_row_wise_compress'], bounded=WHY + ' (3x2, rotated)', samples=300)
def masked_rotated(c):
    masked(c, 3, 2, True)


@contract('C19', ['FFT1288'], small=[{'M': 2, 'N': 2, 'K': 2, 'J': 2}], samples=5,
          assumes=['masked images of any shape: the call of _row_wise_compress is checked, its result is any image (its own contract: bounded shapes)'])
def masked_any_shape(c):
    M, N = c.size('M', 1, rand=(1, 5)), c.size('N', 1, rand=(1, 5))
    K, J = c.size('K', 1, rand=(1, 5)), c.size('J', 1, rand=(1, 5))
    img = c.array('img', (M, N), 'int64', -2 ** 50, 2 ** 50, rand=(0, 60))
    mask = c.array('mask', (M, N), 'bool')
    x0 = c.snapshot(img)
    n = c.int('n', 1, rand=(1, 9))
    f = c.mod('process.routines').FFT1288
    if not c.cut:
        return c.ensure('bounded shapes: see the other contracts', True)
    z = c.array('compressed', (K, J), 'int64', -2 ** 50, 2 ** 50)

    def compress(x):
        c.ensure('image compressed', c.forall(N, lambda i: c.forall(M, lambda j: c.eq(c.data_at(x, i, j), c.at(img, j, i)))))
        c.ensure('mask used', c.forall(N, lambda i: c.forall(M, lambda j: c.iff(c.masked_at(x, i, j), c.at(mask, j, i)))))
        return c.snapshot(z)
    c.patch('process.routines', '_row_wise_compress', compress)
    r = c.call(f, c.masked(img, mask), rotate=True, n=n)
    spectrum(c, r, lambda i, j: c.at(z, i, j), K, J, n)
    c.ensure('image unchanged', c.same(img, x0))
