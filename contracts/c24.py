from dv.spec import contract


def tiled(c, t, H, W, f):
    """the elements of a two-dimensional result, or of its line when H is one"""
    one = c.decide(c.exact(H, 1))
    c.ensure('shape', c.same(c.shape(t), (W,) if one else (H, W)))
    i = c.int('i', 0, rand=(0, int(H) - 1) if not c.is_sym else None)
    j = c.int('j', 0, rand=(0, int(W) - 1) if not c.is_sym else None)
    c.assume(i < H)
    c.assume(j < W)
    c.ensure('periodic', c.exact(c.at(t, j) if one else c.at(t, i, j), f(i, j)))


@contract('C24', ['get_tile'], small=[{'p': 2, 'H': 1, 'W': 3}, {'p': 2, 'H': 2, 'W': 3}], samples=200)
def line(c):
    p, H, W = c.size('p', 1, rand=(1, 5)), c.size('H', 1, rand=(1, 6)), c.size('W', 1, rand=(1, 12))
    a = c.array('a', (p,), rand=(-5, 5))
    a0 = c.snapshot(a)
    t = c.call(c.mod('camera.routines').get_tile, a, H, W)
    tiled(c, t, H, W, lambda i, j: c.at(a, c.mod_(j, p)))
    c.ensure('pattern unchanged', c.same(a, a0))


@contract('C24', ['get_tile'], small=[{'p': 2, 'q': 2, 'H': 1, 'W': 3}, {'p': 2, 'q': 1, 'H': 3, 'W': 2}], samples=200)
def plane(c):
    p, q = c.size('p', 1, rand=(1, 4)), c.size('q', 1, rand=(1, 4))
    H, W = c.size('H', 1, rand=(1, 10)), c.size('W', 1, rand=(1, 10))
    a = c.array('a', (p, q), rand=(-5, 5))
    a0 = c.snapshot(a)
    t = c.call(c.mod('camera.routines').get_tile, a, H, W)
    tiled(c, t, H, W, lambda i, j: c.at(a, c.mod_(i, p), c.mod_(j, q)))
    c.ensure('pattern unchanged', c.same(a, a0))


@contract('C24', ['get_bayer_filter', 'array_tile', 'poisson'], small=[{'h': 1, 'w': 1, 'n': 2}], samples=100)
def bayer(c):
    h, w, n = c.size('h', 1, rand=(1, 3)), c.size('w', 1, rand=(1, 3)), c.size('n', 1, rand=(1, 12))
    H, W = 2 * h, 2 * w
    m = c.mod('camera.routines')
    wl = c.seq('wavelength', n, lo=300, hi=1000, rand=(350, 850))
    ts = [c.int(k, 300, 1000, rand=(400, 800)) for k in ('t00', 't01', 't10', 't11')]
    # the transmission curve is positive somewhere
    curves = [c.call(m.poisson, wl, t) for t in ts]
    tops = [c.amax(x) for x in curves]
    for t in tops:
        c.assume(t > 0)
    b = c.call(m.get_bayer_filter, *ts, W, H, wl)
    c.ensure('shape', c.same(c.shape(b), (H, W, n)))
    i = c.int('i', 0, rand=(0, int(H) - 1) if not c.is_sym else None)
    j = c.int('j', 0, rand=(0, int(W) - 1) if not c.is_sym else None)
    k = c.int('k', 0, rand=(0, int(n) - 1) if not c.is_sym else None)
    c.assume(i < H)
    c.assume(j < W)
    c.assume(k < n)
    r, s = c.mod_(i, 2), c.mod_(j, 2)
    for x, (p, q) in enumerate(((0, 0), (0, 1), (1, 0), (1, 1))):
        if c.decide(c.land(c.exact(r, p), c.exact(s, q))):
            c.ensure('pattern', c.eq(c.at(b, i, j, k), c.div(c.at(curves[x], k), tops[x])))
            c.ensure('at most one', c.at(b, i, j, k) <= 1)
            # the wavelength of the maximum
            top = int(curves[x].argmax()) if not c.is_sym else None
            y = c.int('y', 0, rand=(top, top))
            c.assume(y < n)
            c.assume(c.exact(c.at(curves[x], y), tops[x]))
            c.ensure('one at the maximum', c.eq(c.at(b, i, j, y), 1))
