from dv.spec import contract


@contract('C32', ['bad_pixel', 'Camera.DSNU'], small=[{'H': 1, 'W': 2, 'n': 1}, {'H': 2, 'W': 1, 'n': 2}, {'H': 1, 'W': 1, 'n': 0}], samples=200)
def camera(c):
    H, W = c.size('H', 1, rand=(1, 6)), c.size('W', 1, rand=(1, 6))
    n = c.size('n', 0, rand=(0, int(H) * int(W)) if not c.is_sym else None)
    c.assume(n <= H * W)
    C = c.cls('camera.camera', 'Camera')
    full = c.real('u_esat', lo=1, rand=(1000, 20000))
    f = c.real('fraction', lo=0, hi=1, rand=(0, 1))
    # the map before differs from the value of the bad pixels
    d = c.array('dsnu', (H, W), lo=-100, hi=c.q(-1, 10), rand=(-50, -0.1))
    d0 = c.snapshot(d)
    cam = c.call(C, width=W, height=H, qe=object(), u_esat=full, dsnu=d)
    c.call(c.mod('camera.bad_images').bad_pixel, cam, n, f)
    m = cam.DSNU
    c.ensure('same shape', c.same(c.shape(m), (H, W)))
    new = lambda i, j: c.exact(c.at(m, i, j), f * full)
    old = lambda i, j: c.exact(c.at(m, i, j), c.at(d0, i, j))
    c.ensure('set or untouched', c.forall(H, lambda i: c.forall(W, lambda j: c.lor(new(i, j), old(i, j)))))
    c.ensure('as many as requested', c.exact(c.sum(H, lambda i: c.sum(W, lambda j: c.ite(new(i, j), 1, 0))), n))


@contract('C32', ['bad_pixel', 'Camera.DSNU'], small=[{'H': 1, 'W': 2, 'n': 1}, {'H': 2, 'W': 1, 'n': 2}])
def default_value(c):
    """a full well by default, on a camera without a dark signal map"""
    H, W = c.size('H', 1, rand=(1, 6)), c.size('W', 1, rand=(1, 6))
    n = c.size('n', 0, rand=(0, int(H) * int(W)) if not c.is_sym else None)
    c.assume(n <= H * W)
    C = c.cls('camera.camera', 'Camera')
    full = c.real('u_esat', lo=1, rand=(1000, 20000))
    cam = c.call(C, width=W, height=H, qe=object(), u_esat=full)
    c.call(c.mod('camera.bad_images').bad_pixel, cam, n)
    m = cam.DSNU
    new = lambda i, j: c.exact(c.at(m, i, j), full)
    c.ensure('set or zero', c.forall(H, lambda i: c.forall(W, lambda j: c.lor(new(i, j), c.exact(c.at(m, i, j), 0)))))
    c.ensure('as many as requested', c.exact(c.sum(H, lambda i: c.sum(W, lambda j: c.ite(new(i, j), 1, 0))), n))
