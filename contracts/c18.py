from dv.spec import contract

SM = [{'M': 3, 'N': 3, 'h': 1}, {'M': 3, 'N': 4, 'h': 1}, {'M': 4, 'N': 4, 'h': 1}]


def setup(c, dt, masked):
    h = c.size('h', 1, rand=(1, 2))
    n = 2 * h + 1
    M, N = c.size('M', 1, rand=(5, 8)), c.size('N', 1, rand=(5, 8))
    # some pixel has a full neighbourhood
    c.assume(c.land(n <= M, n <= N))
    lim = 2 ** 40 if dt == 'int64' else None
    img = c.array('img', (M, N), dt, lo=-lim if lim else None, hi=lim, rand=(-300, 300))
    if not masked:
        return h, n, M, N, img, None
    mask = c.array('mask', (M, N), 'bool')
    if not c.is_sym:
        if c.rng.random() < 0.8:
            p, q, k = c.rng.choice([1, 2]), c.rng.choice([1, 2]), c.rng.choice([0, 1])
            a, b = c.rng.randrange(2), c.rng.randrange(2)
            for i in range(int(M)):
                for j in range(int(N)):
                    mask[i, j] = not (i % p == a % p and j % q == b % q)
            if k:
                mask[:] = ~mask if (~mask).any() and mask.any() else mask
    return h, n, M, N, img, mask


def run(c, img, n):
    d = c.call(c.mod('process.routines').high_pass_filter, img, n)
    return d['img'], d['multiplicator']


def plain(c, dt):
    h, n, M, N, img, _ = setup(c, dt, False)
    x0 = c.snapshot(img)
    out, mul = run(c, img, n)
    c.ensure('cropped', c.same(c.shape(out), (M - 2 * h, N - 2 * h)))
    y = lambda i, j: c.at(img, i, j)
    box = lambda i, j: c.sum(n, lambda a: c.sum(n, lambda b: y(i + a, j + b)))
    c.ensure('filter', c.forall(M - 2 * h, lambda i: c.forall(N - 2 * h, lambda j: c.eq(
        c.at(out, i, j), n * n * y(i + h, j + h) - box(i, j), scale=1e4))))
    c.ensure('multiplicator', c.eq(mul, n * n))
    c.ensure('image unchanged', c.same(img, x0))


@contract('C18', ['high_pass_filter'], small=SM, samples=100)
def integers(c):
    plain(c, 'int64')


@contract('C18', ['high_pass_filter'], small=SM, samples=100)
def floats(c):
    plain(c, 'float64')


@contract('C18', ['high_pass_filter'], small=SM, samples=100)
def even_size(c):
    M, N = c.size('M', 1, rand=(5, 8)), c.size('N', 1, rand=(5, 8))
    img = c.array('img', (M, N), 'int64', rand=(-300, 300))
    k = c.int('k', 0, rand=(0, 3))
    o, x = c.outcome(c.mod('process.routines').high_pass_filter, img, 2 * k)
    c.ensure('refused', o == 'exc' and isinstance(x, ValueError))


def count(c, mask, n):
    one = lambda b: c.ite(b, 0, 1)
    return lambda i, j: c.sum(n, lambda a: c.sum(n, lambda b: one(c.at(mask, i + a, j + b))))


def masked(c, dt):
    h, n, M, N, img, mask = setup(c, dt, True)
    x0, m0 = c.snapshot(img), c.snapshot(mask)
    K, L = M - 2 * h, N - 2 * h
    cnt = count(c, mask, n)
    # an unmasked pixel with a full neighbourhood; all of them have as many unmasked neighbours
    p, q = c.int('p', 0, rand=(0, int(K) - 1) if not c.is_sym else None), \
        c.int('q', 0, rand=(0, int(L) - 1) if not c.is_sym else None)
    c.assume(c.land(p < K, q < L))
    c.assume(c.lnot(c.at(mask, p + h, q + h)))
    C = cnt(p, q)
    c.assume(c.forall(K, lambda i: c.forall(L, lambda j: c.lor(c.at(mask, i + h, j + h), c.exact(cnt(i, j), C)))))
    arg = c.masked(img, mask)
    out, mul = run(c, arg, n)
    c.ensure('cropped', c.same(c.shape(out), (K, L)))
    c.lemma('multiplicator', c.eq(mul, C))
    c.ensure('multiplicator', c.eq(mul, C))
    y = lambda i, j: c.ite(c.at(mask, i, j), 0, c.at(img, i, j))
    box = lambda i, j: c.sum(n, lambda a: c.sum(n, lambda b: y(i + a, j + b)))
    c.ensure('mask', c.forall(K, lambda i: c.forall(L, lambda j: c.iff(
        c.masked_at(out, i, j), c.at(mask, i + h, j + h)))))
    c.ensure('filter', c.forall(K, lambda i: c.forall(L, lambda j: c.implies(
        c.lnot(c.at(mask, i + h, j + h)),
        lambda: c.eq(c.data_at(out, i, j), C * c.at(img, i + h, j + h) - box(i, j), scale=1e4)))))
    c.ensure('image unchanged', c.same(img, x0))
    c.ensure('mask unchanged', c.same(mask, m0))


@contract('C18', ['high_pass_filter'], small=SM, samples=200)
def masked_integers(c):
    masked(c, 'int64')


@contract('C18', ['high_pass_filter'], small=SM, samples=200)
def masked_floats(c):
    masked(c, 'float64')


@contract('C18', ['high_pass_filter'], small=SM, samples=200)
def uneven_mask(c):
    h, n, M, N, img, mask = setup(c, 'int64', True)
    K, L = M - 2 * h, N - 2 * h
    cnt = count(c, mask, n)
    # two unmasked pixels with different numbers of unmasked neighbours
    w = [c.int(x, 0, rand=(0, int(d) - 1) if not c.is_sym else None) for x, d in zip('pqrs', (K, L, K, L))]
    for x, d in zip(w, (K, L, K, L)):
        c.assume(x < d)
    if not c.is_sym:
        mask[:] = c.rng.random() < 0.5
        for x in range(int(M) * int(N)):
            if c.rng.random() < 0.2:
                mask.flat[x] = ~mask.flat[x]
        mask[w[0] + h, w[1] + h] = mask[w[2] + h, w[3] + h] = False
    c.assume(c.lnot(c.at(mask, w[0] + h, w[1] + h)))
    c.assume(c.lnot(c.at(mask, w[2] + h, w[3] + h)))
    c.assume(c.lnot(c.exact(cnt(w[0], w[1]), cnt(w[2], w[3]))))
    o, x = c.outcome(c.mod('process.routines').high_pass_filter, c.masked(img, mask), n)
    c.ensure('refused', o == 'exc' and isinstance(x, ValueError))
