from dv.spec import contract
import numpy as np

SM = [{'M': 1, 'N': 2}, {'M': 2, 'N': 2}]


def image(c, masked):
    M, N = c.size('M', 1, rand=(1, 5)), c.size('N', 1, rand=(1, 5))
    img = c.array('img', (M, N), 'int64', rand=(-3, 40))
    if not c.is_sym:
        img = img * c.rng.choice([1, 1, 7, 1000])
        if c.rng.random() < 0.3:
            dt = c.rng.choice(['uint8', 'uint16', 'int16'])
            img = img.clip(0).astype(dt)
            img.flat[c.rng.randrange(img.size)] = np.iinfo(dt).max
    qmax = c.int('Qmax', 1, rand=(1, 60))
    mask = None
    if masked:
        mask = c.array('mask', (M, N), 'bool')
        # some pixel is not masked
        a, b = c.int('a', 0, rand=(0, int(M) - 1) if not c.is_sym else None), \
            c.int('b', 0, rand=(0, int(N) - 1) if not c.is_sym else None)
        c.assume(a < M)
        c.assume(b < N)
        if not c.is_sym:
            mask[a, b] = False
        c.assume(c.lnot(c.at(mask, a, b)))
    return M, N, img, mask, qmax


def check(c, masked):
    M, N, img, mask, qmax = image(c, masked)
    arg = c.masked(img, mask) if masked else img
    x0 = c.snapshot(img)
    d = c.call(c.mod('process.routines').Histogram1288, arg, qmax)
    bins, H, model = d['bins'], d['values'], d['model']
    used = (lambda i, j: c.lnot(c.at(mask, i, j))) if masked else (lambda i, j: True)
    at = lambda i, j: c.at(img, i, j)
    lo, hi = c.amin(arg), c.amax(arg)
    q = hi - lo
    W = c.floordiv(q, qmax) + 1
    n = c.floordiv(q, W) + 1
    c.lemma('the narrowest bins: the limit is kept', n <= qmax)
    c.lemma('the narrowest bins: narrower ones exceed it',
            c.lor(c.exact(W, 1), (W - 1) * qmax <= q))
    c.ensure('number of bins', c.land(c.exact(c.len(bins), n), c.exact(c.len(H), n)))
    c.ensure('bins', c.forall(n, lambda k: c.exact(c.at(bins, k), lo + k * W)))
    c.ensure('maximum covered', c.land(lo + (n - 1) * W <= hi, hi < lo + n * W))
    one = lambda b: c.ite(b, 1, 0)
    cnt = lambda k: c.sum(M, lambda i: c.sum(N, lambda j: one(
        c.land(used(i, j), lo + k * W <= at(i, j), at(i, j) < lo + (k + 1) * W))))
    c.ensure('counts', c.forall(n, lambda k: c.exact(c.at(H, k), cnt(k))))
    c.ensure('image unchanged', c.same(img, x0))


@contract('C16', ['Histogram1288'], small=SM, samples=300)
def plain(c):
    check(c, False)


@contract('C16', ['Histogram1288'], small=SM, samples=300)
def masked(c):
    check(c, True)


def curve(c, masked):
    M, N, img, mask, qmax = image(c, masked)
    arg = c.masked(img, mask) if masked else img
    d = c.call(c.mod('process.routines').Histogram1288, arg, qmax)
    bins, model = d['bins'], d['model']
    w = (lambda i, j: c.ite(c.at(mask, i, j), 0, 1)) if masked else (lambda i, j: 1)
    tot = lambda f: c.sum(M, lambda i: c.sum(N, lambda j: w(i, j) * f(c.at(img, i, j) + 0)))
    n = tot(lambda x: 1)
    lo, hi = c.amin(arg), c.amax(arg)
    mu = c.div(tot(lambda x: x if c.is_sym else float(x)), n)
    var = c.div(tot(lambda x: c.square((x if c.is_sym else float(x)) - mu)), n)
    # not all pixels are the same
    c.assume(var > 0)
    sigma = c.sqrt(var)
    k = c.int('k', 0, rand=(0, 5))
    nb = c.len(bins)
    c.assume(k < nb)
    b = c.at(bins, k)
    want = c.div(hi - lo, nb) * n / (c.sqrt(2 * c.pi) * sigma) * c.exp(-c.square(b - mu) / (2 * c.square(sigma)))
    c.ensure('for every bin', c.exact(c.len(model), nb))
    c.ensure('normal density', c.eq(c.at(model, k), want, scale=n))


@contract('C16', ['Histogram1288'], small=SM, samples=200)
def model_plain(c):
    curve(c, False)


@contract('C16', ['Histogram1288'], small=SM, samples=200)
def model_masked(c):
    curve(c, True)
