from dv.spec import contract

SM = [{'n': 1}, {'n': 2}, {'n': 3}]


def camera(c, **kw):
    C = c.cls('camera.camera', 'Camera')
    return c.call(C, width=3, height=2, qe=object(), **kw)


def steps(c, avail, lo, hi, n):
    c.ensure('as many as asked for', c.exact(c.len(avail), n))
    k = c.int('k', 0, rand=(0, int(n) - 1) if not c.is_sym else None)
    c.assume(k < n)
    want = c.ite(n > 1, lo + k * c.div(hi - lo, c.max2(n - 1, 1)), lo)
    c.ensure('equal steps', c.eq(c.at(avail, k), want))


def nearest(c, what, got, avail, n, v):
    c.ensure(what + ' is available', c.exists(n, lambda i: c.exact(c.at(avail, i), got)))
    c.ensure(what + ' is the closest', c.forall(n, lambda i: c.abs(c.at(avail, i) - v) >= c.abs(got - v)))


def limits(c, n, top):
    lo = c.real('lo', lo=0, rand=(0.1, top / 2))
    hi = c.real('hi', lo=0, rand=(0.1, top))
    if not c.is_sym and c.rng.random() < 0.8:
        lo, hi = sorted((lo, hi))
    c.assume(lo <= hi)
    return lo, hi


def value(c, name, lo, hi, n):
    """any value, also on and near the middle of two settings"""
    v = c.real(name, rand=(-2, 40))
    if not c.is_sym and c.rng.random() < 0.4:
        s = (hi - lo) / max(1, n - 1)
        v = lo + s * (c.rng.randint(0, int(n)) + c.rng.choice([0.4, 0.5, 0.6, 0.49, 0.51]))
    return v


@contract('C23', ['Camera.K', 'Camera.Ks', 'Camera.__init__', 'nearest_value'], small=SM, samples=200)
def gain(c):
    n = c.size('n', 1, rand=(1, 7))
    lo, hi = limits(c, n, 20)
    v0, v = value(c, 'K', lo, hi, n), value(c, 'K assigned', lo, hi, n)
    cam = camera(c, K=v0, K_min=lo, K_max=hi, K_steps=n)
    steps(c, cam.Ks, lo, hi, n)
    nearest(c, 'initial gain', cam.K, cam.Ks, n, v0)

    def assign():
        cam.K = v
    c.call(assign)
    nearest(c, 'assigned gain', cam.K, cam.Ks, n, v)
    steps(c, cam.Ks, lo, hi, n)


@contract('C23', ['Camera.blackoffset', 'Camera.blackoffsets', 'Camera.__init__', 'nearest_value'], small=SM, samples=200)
def blackoffset(c):
    n = c.size('n', 1, rand=(1, 7))
    lo, hi = limits(c, n, 20)
    c.assume(hi > 0)
    v0, v = value(c, 'b', lo, hi, n), value(c, 'b assigned', lo, hi, n)
    K0 = c.real('K', rand=(0, 20))
    cam = camera(c, K=K0, blackoffset=v0, blackoffset_min=lo, blackoffset_max=hi, blackoffset_steps=n)
    steps(c, cam.blackoffsets, lo, hi, n)
    nearest(c, 'initial offset', cam.blackoffset, cam.blackoffsets, n, v0)
    K = cam.K

    def assign():
        cam.blackoffset = v
    c.call(assign)
    nearest(c, 'assigned offset', cam.blackoffset, cam.blackoffsets, n, v)
    c.ensure('gain untouched', c.exact(cam.K, K))


@contract('C23', ['Camera.__init__', 'Camera.blackoffsets'], small=SM)
def default_maximum(c):
    n = c.size('n', 2, rand=(2, 7))
    d = c.choice('depth', list(range(1, 25)))
    lo = c.real('lo', lo=0, rand=(0, 3))
    top = (2 ** d - 1) // 16
    cam = camera(c, bit_depth=d, blackoffset_min=lo, blackoffset_steps=n)
    c.ensure('one sixteenth of the full range', c.eq(c.at(cam.blackoffsets, n - 1), top))
    steps(c, cam.blackoffsets, lo, top, n)
