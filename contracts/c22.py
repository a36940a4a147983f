from dv.spec import contract


def _in(c):
    return (c.real('exposure', pos=True, rand=(1e5, 1e9)), c.real('area', pos=True, rand=(1, 100)),
            c.real('wavelength', pos=True, rand=(300, 900)), c.real('f_number', pos=True, rand=(0.7, 22)))


@contract('C22', ['get_photons', 'get_radiance'])
def inverse(c):
    t, a, w, f = _in(c)
    p = c.real('photons', lo=0, rand=(0, 1e5))
    m = c.mod('camera.routines')
    r = c.call(m.get_radiance, t, p, a, f, w)
    c.ensure('photons back', c.eq(c.call(m.get_photons, t, r, a, w, f), p))
    q = c.call(m.get_photons, t, p, a, w, f)
    c.ensure('radiance back', c.eq(c.call(m.get_radiance, t, q, a, f, w), p))


@contract('C22', ['get_photons', 'get_radiance'], small=[{'H': 1, 'W': 1, 'n': 2}, {'H': 2, 'W': 2, 'n': 1}])
def inverse_arrays(c):
    t, a, _w, f = _in(c)
    H, W, n = c.size('H'), c.size('W'), c.size('n')
    w = c.seq('w', n, lo=300, hi=1000)
    p = c.array('p', (H, W, n), lo=0, rand=(0, 1e5))
    m = c.mod('camera.routines')
    r = c.call(m.get_radiance, t, p, a, f, w)
    q = c.call(m.get_photons, t, r, a, w, f)
    c.ensure('photons back', c.forall(H, lambda i: c.forall(W, lambda j: c.forall(
        n, lambda k: c.eq(c.at(q, i, j, k), c.at(p, i, j, k))))))


@contract('C22', ['get_photons'])
def proportional(c):
    t, a, w, f = _in(c)
    r = c.real('radiance', lo=0, rand=(0, 1e-3))
    s = c.real('factor', lo=0, rand=(0, 10))
    m = c.mod('camera.routines')
    p = c.call(m.get_photons, t, r, a, w, f)
    c.ensure('radiance', c.eq(c.call(m.get_photons, t, s * r, a, w, f), s * p))
    c.ensure('exposure', c.eq(c.call(m.get_photons, s * t, r, a, w, f), s * p))
    c.ensure('area', c.eq(c.call(m.get_photons, t, r, s * a, w, f), s * p))
    c.ensure('not negative', p >= 0)


class QeStub:
    pass


@contract('C22', ['Camera.get_radiance_for', '_u_therm', '_u_i', '_u_e', 'get_photons'],
          small=[{'H': 1, 'W': 1, 'n': 2}, {'H': 1, 'W': 2, 'n': 1}])
def target(c):
    H, W, n = c.size('H', rand=(1, 3)), c.size('W', rand=(1, 3)), c.size('n', rand=(1, 4))
    w = c.seq('w', n, lo=300, hi=1000)
    qv = c.seq('qe', n, lo=c.q(1, 100), hi=1, rand=(0.02, 1))
    qe = c.new('camera.routines', 'Qe')
    q3 = c.from_fn((H, W, n), lambda i, j, k: c.at(qv, k))
    Q = c.cls('camera.routines', 'Qe')
    qe = c.call(Q, qe=q3, wavelength=w, width=W, height=H)
    t0, t, a, _w, f = (c.real('exposure0', pos=True, rand=(1e5, 1e9)),) + _in(c)
    C = c.cls('camera.camera', 'Camera')
    T = c.real('temperature', rand=(10, 40))
    dark = c.real('dark_current_ref', lo=0, rand=(0, 50))
    cam = c.call(C, f_number=f, pixel_area=a, width=W, height=H, qe=qe, exposure=t0, temperature=T,
                 dark_current_ref=dark, K=0.1, K_min=0.1, K_max=0.1, K_steps=1)
    mean = c.real('mean', lo=1, rand=(1, 255))
    if c.bool('explicit exposure'):
        rad = c.call(cam.get_radiance_for, mean=mean, exposure=t)
        cam.exposure = t
    else:
        rad = c.call(cam.get_radiance_for, mean=mean)
        t = t0
    ph = c.call(cam.get_photons, rad)
    # light induced electrons of a pixel (prnu 1) plus thermal electrons
    i, j = c.int('i', 0, H - 1, rand=(0, int(H) - 1) if not c.is_sym else None), c.int('j', 0, W - 1, rand=(0, int(W) - 1) if not c.is_sym else None)
    light = c.sum(n, lambda k: c.at(ph, i, j, k) * c.at(qv, k))
    therm = c.div(dark * c.pow2(c.div(T - 30, 8)) * t, 10 ** 9)
    c.ensure('electrons', c.eq(light + therm, c.div(mean, cam.K), scale=therm))


@contract('C22', ['Camera.get_photons', 'get_photons'], small=[{'n': 2}, {'n': 1}])
def camera_photons(c):
    n = c.size('n', 1, rand=(1, 4))
    w = c.seq('w', n, lo=300, hi=1000)
    qe = c.call(c.cls('camera.routines', 'Qe'), wavelength=w, width=1, height=1,
                qe=c.array('qe', (1, 1, n), lo=0, hi=1))
    t0, a, _w, f0 = _in(c)
    cam = c.call(c.cls('camera.camera', 'Camera'), f_number=f0, pixel_area=a, width=1, height=1, qe=qe, exposure=t0)
    rad = c.real('radiance', lo=0, rand=(0, 1e-3))
    t, f, k = t0, f0, {}
    if c.bool('exposure given'):
        t = k['exposure'] = c.real('exposure1', lo=0, rand=(0, 1e9)) if c.is_sym or c.rng.random() < .8 else 0
    if c.bool('f number given'):
        f = k['f_number'] = c.real('f_number1', lo=0, rand=(0, 20)) if c.is_sym or c.rng.random() < .8 else 0
    p = c.call(cam.get_photons, rad, **k)
    want = c.call(c.mod('camera.routines').get_photons, t, 1, a, w, f)
    i = c.int('i', 0, rand=(0, int(n) - 1) if not c.is_sym else None)
    c.assume(i < n)
    c.ensure('photons', c.eq(c.at(p, i), rad * c.at(want, i)))
