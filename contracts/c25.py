from dv.spec import contract

WHY = 'exposure series of at most six steps'
SM = [{'H': 1, 'W': 2, 'n': 1}, {'H': 2, 'W': 1, 'n': 2}]


def camera(c):
    H, W, n = c.size('H', 1, rand=(1, 3)), c.size('W', 1, rand=(1, 3)), c.size('n', 1, rand=(1, 3))
    w = c.seq('w', n, lo=300, hi=1000, rand=(300, 1000))
    q3 = c.array('qe', (H, W, n), lo=c.q(1, 100), hi=1, rand=(0.1, 1))
    qe = c.call(c.cls('camera.routines', 'Qe'), qe=q3, wavelength=w, width=W, height=H)
    lo = c.real('cam_min', pos=True, rand=(10, 1000))
    hi = c.real('cam_max', pos=True, rand=(10000, 1e7))
    cam = c.call(c.cls('camera.camera', 'Camera'), width=W, height=H, qe=qe, exposure_min=lo, exposure_max=hi,
                 exposure=c.real('cam_exposure', pos=True, rand=(10, 1e6)), seed=3,
                 dark_current_ref=c.real('dark', 0, rand=(0, 100)))
    return cam, H, W, n


def index(c, *dims):
    r = []
    for k, n in zip('ijk', dims):
        i = c.int(k, 0, rand=(0, int(n) - 1) if not c.is_sym else None)
        c.assume(i < n)
        r.append(i)
    return r


def near(c, x, y, tol):
    return c.land(x - y <= tol, y - x <= tol)


def exposures(c, steps, given):
    cam, H, W, n = camera(c)
    k, lo, hi = {}, cam.exposure_min, cam.exposure_max
    if given:
        lo = k['exposure_min'] = c.real('low', pos=True, rand=(10, 5000))
        hi = k['exposure_max'] = c.real('high', pos=True, rand=(6000, 1e7))
    # the exposure times, rounded to a decimal, are all different
    c.assume(hi - lo >= steps)
    want = [lo + c.div((hi - lo) * s, steps - 1) if steps > 1 else lo for s in range(steps)]
    P = c.cls('camera.points_generator', 'PointsGenerator')
    o = c.call(P, cam, steps=steps, **k)
    pts = o.points
    c.ensure('kinds', sorted(c.keys(pts)) == ['spatial', 'temporal'])
    t, s = pts['temporal'], pts['spatial']
    ts, ss = c.keys(t), c.keys(s)
    c.ensure('number of exposures', len(ts) == steps)
    c.ensure('one spatial exposure', len(ss) == 1)
    h = c.q(1, 20) if c.is_sym else 0.0501
    for x in range(min(steps, len(ts))):
        c.ensure('exposure %d' % x, near(c, ts[x], want[x], h))
    if len(ss) == 1:
        c.ensure('the middle exposure', near(c, ss[0], want[steps // 2], h))
    i, j, l = index(c, H, W, n)
    sat = c.call(cam.get_radiance_for, exposure=hi)
    for d, e in [(t, x) for x in ts] + [(s, x) for x in ss]:
        c.ensure('two radiances', len(c.values_list(d[e])) == 2)
        r = c.values_list(d[e])
        c.ensure('shapes', c.land(*[c.same(c.shape(x), (H, W, n)) for x in r]))
        c.ensure('bright saturates at the maximal exposure', c.eq(c.at(r[0], i, j, l), c.at(sat, i, j, l)))
        c.ensure('dark', c.exact(c.at(r[1], i, j, l), 0))


for _n in (1, 2, 3, 4, 5, 6):
    for _g in (0, 1):
        if _n < 5 or _g:
            exec('''@contract('C25', ['PointsGenerator', 'Camera.get_radiance_for'], bounded=WHY, small=SM, samples=20)
def exposure_%d%s(c):
    exposures(c, %d, %d)
''' % (_n, '_given' if _g else '', _n, _g))


@contract('C25', ['PointsGenerator'], small=[dict(s, steps=k) for s, k in zip(SM + SM, (1, 2, 3, 4))], samples=60)
def illumination(c):
    """a single exposure, both limits given"""
    cam, H, W, n = camera(c)
    steps = c.size('steps', 1, rand=(1, 9))
    e = c.int('fixed', 1, rand=(100, 10 ** 6))
    lo, hi = c.real('low', 0, rand=(0, 1e3)), c.real('high', pos=True, rand=(1e3, 1e5))
    P = c.cls('camera.points_generator', 'PointsGenerator')
    o = c.call(P, cam, steps=steps, exposure_fixed=e, radiance_min=lo, radiance_max=hi)
    series(c, o.points, e, steps, lo, hi, H, W, n)
    c.ensure('exposure of the camera', c.exact(cam.exposure, e))


def series(c, pts, e, steps, lo, hi, H, W, n):
    c.ensure('kinds', sorted(c.keys(pts)) == ['spatial', 'temporal'])
    t, s = pts['temporal'], pts['spatial']
    c.ensure('one exposure', c.land(len(c.keys(t)) == 1, len(c.keys(s)) == 1,
                                    c.exact(c.keys(t)[0], e), c.exact(c.keys(s)[0], e)))
    r = t[c.keys(t)[0]]
    c.ensure('radiances and a dark', c.exact(c.len(r), steps + 1))
    m = c.int('m', 0, rand=(0, int(steps) - 1) if not c.is_sym else None)
    c.assume(m < steps)
    i, j, l = index(c, H, W, n)
    step = c.div(hi - lo, steps - 1) if c.decide(steps > 1) else 0
    c.ensure('radiance', c.eq(c.at(c.item(r, m), i, j, l), lo + m * step))
    c.ensure('dark', c.exact(c.at(c.item(r, steps), i, j, l), 0))
    q = c.values_list(s[c.keys(s)[0]])
    c.ensure('one bright and one dark spatial radiance', len(q) == 2)
    c.ensure('spatial radiance', c.eq(c.at(q[0], i, j, l), lo + (steps // 2) * step))
    c.ensure('spatial dark', c.exact(c.at(q[1], i, j, l), 0))


def limits(c, low, high):
    """the limits of the radiance left to the camera"""
    cam, H, W, n = camera(c)
    steps = c.size('steps', 1, rand=(1, 9))
    e = c.int('fixed', 1, rand=(100, 10 ** 6))
    k, lo, hi = {}, None, None
    if low:
        lo = k['radiance_min'] = c.real('low', 0, rand=(0, 1e3))
    if high:
        hi = k['radiance_max'] = c.real('high', pos=True, rand=(1e3, 1e5))
    P = c.cls('camera.points_generator', 'PointsGenerator')
    o = c.call(P, cam, steps=steps, exposure_fixed=e, **k)
    i, j, l = index(c, H, W, n)
    r = o.points['temporal'][c.keys(o.points['temporal'])[0]]
    if lo is None:
        # a value above dark illumination
        lo = c.at(c.item(r, 0), i, j, l)
    if hi is None:
        top = c.call(cam.get_radiance_for, exposure=e)
        hi = c.div(c.sum(H, lambda i: c.sum(W, lambda j: c.sum(n, lambda l: c.at(top, i, j, l)))), H * W * n)
    series(c, o.points, e, steps, lo, hi, H, W, n)


@contract('C25', ['PointsGenerator', 'Camera.get_radiance_for'], small=[dict(s, steps=k) for s, k in zip(SM + SM, (1, 2, 3, 4))], samples=60)
def illumination_no_limits(c):
    limits(c, 0, 0)


@contract('C25', ['PointsGenerator', 'Camera.get_radiance_for'], small=[dict(s, steps=k) for s, k in zip(SM + SM, (1, 2, 3, 4))], samples=60)
def illumination_low_limit(c):
    limits(c, 1, 0)


@contract('C25', ['PointsGenerator', 'Camera.get_radiance_for'], small=[dict(s, steps=k) for s, k in zip(SM + SM, (1, 2, 3, 4))], samples=60)
def illumination_high_limit(c):
    limits(c, 0, 1)


@contract('C25', ['PointsGenerator.__init__', 'Camera.get_radiance_for'], small=[dict(s, steps=k) for s, k in zip(SM + SM, (1, 2, 3, 4))], samples=60)
def lowest_radiance(c):
    """left out, the lower limit is the radiance one step above the dark image"""
    cam, H, W, n = camera(c)
    steps = c.size('steps', 1, rand=(1, 9))
    e = c.int('fixed', 1, rand=(100, 10 ** 6))
    hi = c.real('high', pos=True, rand=(1e3, 1e5))
    dark = c.array('dark_image', (H, W), 'uint8', lo=0, hi=200, rand=(0, 9))
    seen = []

    def grab(self, radiance, *a, **k):
        seen.append((radiance, self.exposure))
        return dark
    c.patch_attr(c.cls('camera.camera', 'Camera'), 'grab', grab)
    o = c.call(c.cls('camera.points_generator', 'PointsGenerator'), cam, steps=steps, exposure_fixed=e, radiance_max=hi)
    c.ensure('taken without light at the exposure', len(seen) > 0 and c.land(*[
        c.land(c.exact(r, 0) if c.isnum(r) else c.exact(c.mean(r), 0), c.exact(x, e)) for r, x in seen]))
    d = c.div(c.sum(H, lambda i: c.sum(W, lambda j: c.at(dark, i, j))), H * W)
    i, j, l = index(c, H, W, n)
    r = o.points['temporal'][c.keys(o.points['temporal'])[0]]
    want = c.call(cam.get_radiance_for, mean=c.div(cam.img_max - d, steps) + d, exposure=e)
    avg = c.div(c.sum(H, lambda i: c.sum(W, lambda j: c.sum(n, lambda l: c.at(want, i, j, l)))), H * W * n)
    c.ensure('lowest radiance', c.eq(c.at(c.item(r, 0), i, j, l), avg))
