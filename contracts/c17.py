from dv.spec import contract
from contracts.common import results, get

SM = [{'M': 1, 'N': 2}, {'M': 2, 'N': 2}]
SF = [{'K': 1, 'J': 2}]
QMAX = 256


def stack(c, name, M, N):
    y = c.array(name, (M, N), 'int64', 0, 2 ** 40, rand=(0, 60))
    if not c.is_sym:
        y = y * c.rng.choice([1, 1, 11, 900])
    return y


def image_mask(c, M, N, masked):
    if not masked:
        return None
    mask = c.array('mask', (M, N), 'bool')
    a, b = c.int('a', 0, rand=(0, int(M) - 1) if not c.is_sym else None), \
        c.int('b', 0, rand=(0, int(N) - 1) if not c.is_sym else None)
    c.assume(a < M)
    c.assume(b < N)
    if not c.is_sym:
        mask[a, b] = False
    c.assume(c.lnot(c.at(mask, a, b)))
    return mask


def compute(c, r, name, M, N, img, mask, scale, shift, accumulated):
    """the histogram computed by r.name is that of img, masked by mask"""
    used = (lambda i, j: c.lnot(c.at(mask, i, j))) if mask is not None else (lambda i, j: True)
    wrap = lambda x: c.masked(x, mask) if mask is not None else x
    one = lambda b: c.ite(b, 1, 0)
    k = c.int('k', 0, rand=(0, 5))
    rt = c.mod('process.routines')
    st = {}

    def limits(arr):
        lo, hi = c.amin(arr), c.amax(arr)
        q = hi - lo
        W = c.floordiv(q, QMAX) + 1
        return lo, W, c.floordiv(q, W) + 1

    def counts(x, lo, W):
        return lambda k: c.sum(M, lambda i: c.sum(N, lambda j: one(
            c.land(used(i, j), lo + k * W <= c.at(x, i, j), c.at(x, i, j) < lo + (k + 1) * W))))
    if c.cut:
        # the call of the histogram is checked where it is made, on any image;
        # from there on its result is any histogram
        real = rt.Histogram1288
        any_image = c.array('image', (M, N), 'int64', -2 ** 60, 2 ** 60)

        def hist(x, qmax):
            c.ensure('histogram of the shape', c.same(c.shape(x), (M, N)))
            c.ensure('histogram of the image', c.forall(M, lambda i: c.forall(N, lambda j: c.implies(
                used(i, j), lambda: c.eq(c.data_at(x, i, j), c.at(img, i, j))))))
            if mask is not None:
                c.ensure('histogram of the mask', c.forall(M, lambda i: c.forall(N, lambda j: c.iff(
                    c.masked_at(x, i, j), c.at(mask, i, j)))))
            c.ensure('at most 256 bins', c.exact(qmax, QMAX))
            arr = wrap(any_image)
            h = real(arr, qmax)
            lo, W, n = limits(arr)
            if 'n' in st:
                return h
            c.ensure('number of bins', c.land(c.exact(c.len(h['bins']), n), c.exact(c.len(h['values']), n)))
            c.assume(k < n)
            c.ensure('bins', c.eq(c.at(h['bins'], k), lo + k * W))
            c.ensure('counts', c.exact(c.at(h['values'], k), counts(any_image, lo, W)(k)))
            n = st['n'] = c.int('number', 1)
            c.assume(k < n)
            st['bins'], st['values'] = c.seq('bins', n), c.seq('values', n, 'int64', 0, 2 ** 60)
            return c.dict({'bins': c.snapshot(st['bins']), 'values': c.snapshot(st['values'])})
        c.patch('process.routines', 'Histogram1288', hist)
        h = get(c, r, name)
        n, low, cnt = st['n'], lambda k: c.at(st['bins'], k), lambda k: c.at(st['values'], k)
    else:
        h = get(c, r, name)
        lo, W, n = limits(wrap(img))
        c.assume(k < n)
        low, cnt = (lambda k: lo + k * W), counts(img, lo, W)
    bins, H = h['bins'], h['values']
    c.ensure('length', c.land(c.exact(c.len(bins), n), c.exact(c.len(H), n)))
    c.ensure('rescaled bins', c.eq(c.at(bins, k), c.div(low(k), scale) - shift))
    if not accumulated:
        c.ensure('values', c.exact(c.at(H, k), cnt(k)))
        return
    total = c.sum(M, lambda i: c.sum(N, lambda j: one(used(i, j))))
    above = c.sum(n - k, lambda x: cnt(k + x))
    c.ensure('percentage in the bin or above', c.eq(c.at(H, k), c.div(100 * above, total)))


def dsnu(c, masked, accumulated):
    M, N = c.size('M', 1, rand=(1, 5)), c.size('N', 1, rand=(1, 5))
    y = stack(c, 'sum_dark', M, N)
    mask = image_mask(c, M, N, masked)
    L = c.int('L_dark', 1, rand=(1, 20))
    arg = c.masked(y, mask) if masked else y
    used = (lambda i, j: c.lnot(c.at(mask, i, j))) if masked else (lambda i, j: True)
    # other figures, which are not to be used
    x = c.array('sum', (M, N), 'int64', 0, 2 ** 40, rand=(0, 60))
    sp = c.dict({'sum_dark': arg, 'L_dark': L, 'sum': c.masked(x, mask) if masked else x, 'L': c.int('L', 1, rand=(1, 20))})
    y0 = c.snapshot(y)
    r = results(c, spatial=sp)
    name = 'histogram_DSNU' + ('_accumulated' if accumulated else '')
    w = lambda i, j: c.ite(used(i, j), 1, 0)
    num = c.sum(M, lambda i: c.sum(N, lambda j: w(i, j)))
    tot = c.sum(M, lambda i: c.sum(N, lambda j: w(i, j) * c.at(y, i, j)))
    mean = c.div(tot, num)
    if accumulated:
        m = c.trunc(mean)
        z = c.from_fn((M, N), lambda i, j: c.abs(c.at(y, i, j) - m), 'int64')
        compute(c, r, name, M, N, z, mask, L, 0, True)
    else:
        compute(c, r, name, M, N, y, mask, L, c.div(mean, L), False)
    c.ensure('image unchanged', c.same(y, y0))


@contract('C17', ['Results1288.histogram_DSNU'], small=SM, samples=200)
def dsnu_plain(c):
    dsnu(c, False, False)


@contract('C17', ['Results1288.histogram_DSNU'], small=SM, samples=200)
def dsnu_masked(c):
    dsnu(c, True, False)


@contract('C17', ['Results1288.histogram_DSNU_accumulated'], small=SM, samples=200)
def dsnu_accumulated(c):
    dsnu(c, False, True)


@contract('C17', ['Results1288.histogram_DSNU_accumulated'], small=SM, samples=200)
def dsnu_accumulated_masked(c):
    dsnu(c, True, True)


def prnu(c, accumulated):
    K, J = c.size('K', 1, rand=(1, 4)), c.size('J', 1, rand=(1, 4))
    M, N = K + 4, J + 4
    y, d = stack(c, 'sum', M, N), stack(c, 'sum_dark', M, N)
    L = c.int('L', 1, rand=(1, 20))
    # as many dark as bright images: sums are comparable
    r = results(c, spatial=c.dict({'sum': y, 'sum_dark': d, 'L': L, 'L_dark': L}))
    y0, d0 = c.snapshot(y), c.snapshot(d)
    p = lambda i, j: c.at(y, i, j) - c.at(d, i, j)
    f = c.from_fn((K, J), lambda i, j: 25 * p(i + 2, j + 2) - c.sum(5, lambda a: c.sum(5, lambda b: p(i + a, j + b))), 'int64')
    if c.cut:
        # the call of the filter is checked where it is made; from there on its
        # result is any image
        want, f = f, c.array('filtered', (K, J), 'int64', -2 ** 50, 2 ** 50)
        filtered = f
        real = c.mod('process.routines').high_pass_filter

        def filt(img, dim):
            d = real(img, dim)
            out = d['img']
            c.ensure('filter: shape', c.same(c.shape(out), (K, J)))
            c.ensure('filter: image', c.forall(K, lambda i: c.forall(J, lambda j: c.eq(c.at(out, i, j), c.at(want, i, j)))))
            c.ensure('filter: factor', c.eq(d['multiplicator'], 25))
            return c.dict({'img': c.snapshot(filtered), 'multiplicator': d['multiplicator']})
        c.patch('process.routines', 'high_pass_filter', filt)
    if accumulated:
        m = c.trunc(c.div(c.sum(K, lambda i: c.sum(J, lambda j: c.at(f, i, j))), K * J))
        f0 = f
        f = c.from_fn((K, J), lambda i, j: c.abs(c.at(f0, i, j) - m), 'int64')
    compute(c, r, 'histogram_PRNU' + ('_accumulated' if accumulated else ''), K, J, f, None, 25 * L, 0, accumulated)
    c.ensure('image unchanged', c.land(c.same(y, y0), c.same(d, d0)))


@contract('C17', ['Results1288.histogram_PRNU'], small=SF, samples=200)
def prnu_plain(c):
    prnu(c, False)


@contract('C17', ['Results1288.histogram_PRNU_accumulated'], small=SF, samples=200)
def prnu_accumulated(c):
    prnu(c, True)
