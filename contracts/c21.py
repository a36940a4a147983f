from dv.spec import contract

SM = [{'H': 1, 'W': 2, 'n': 1}, {'H': 2, 'W': 1, 'n': 2}]


class Recorder:
    """a random generator that keeps what it was asked for and what it gave"""

    def __init__(self, c, real):
        self.c, self.real, self.poissons, self.normals, self.uniforms = c, real, [], [], []

    def poisson(self, lam=1.0, size=None):
        r = self.real.poisson(lam, size)
        self.poissons.append((self.c.snapshot(lam), self.c.snapshot(r)))
        return r

    def normal(self, loc=0.0, scale=1.0, size=None):
        r = self.real.normal(loc, scale, size)
        self.normals.append((self.c.snapshot(loc), scale, self.c.snapshot(r)))
        return r

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def uniform(self, low=0.0, high=1.0, size=None):
        r = self.real.uniform(low, high, size)
        self.uniforms.append((low, high, self.c.snapshot(r)))
        return r

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)


def recorder(c):
    np = c.mod('camera.camera').np
    real = np.random.default_rng
    out = []

    def make(seed=None, *a, **k):
        out.append(Recorder(c, real(seed if c.is_sym else c.rng.randrange(1 << 30))))
        return out[-1]
    c.patch_attr(np.random, 'default_rng', make)
    return out


def light(c, name, H, W, n, kinds):
    """a radiance: one number, one per wavelength or an image of each wavelength"""
    kind = c.choice('radiance', kinds)
    if kind == 'number':
        r = c.real(name, 0, rand=(0, 2e4))
        return r, lambda i, j, k: r
    if kind == 'spectrum':
        r = c.seq(name, n, lo=0, rand=(0, 2e4))
        return r, lambda i, j, k: c.at(r, k)
    r = c.array(name, (H, W, n), 'float64', 0, rand=(0, 2e4))
    return r, lambda i, j, k: c.at(r, i, j, k)


KINDS = ['number', 'spectrum', 'image']


def grabbed(c, depths, maps, override, kinds=KINDS):
    H, W, n = c.size('H', 1, rand=(1, 3)), c.size('W', 1, rand=(1, 3)), c.size('n', 1, rand=(1, 3))
    depth = c.choice('depth', depths)
    rec = recorder(c)
    Q = c.cls('camera.routines', 'Qe')
    w = c.seq('w', n, lo=300, hi=1000, rand=(300, 1000))
    q3 = c.array('qe', (H, W, n), lo=0, hi=1, rand=(0, 1))
    qe = c.call(Q, qe=q3, wavelength=w, width=W, height=H)
    par = {}
    par['exposure'] = c.real('exposure', 0, rand=(0, 1e7))
    par['temperature_ref'] = c.real('T_ref', rand=(20, 40))
    par['temperature_doubling'] = c.real('T_d', pos=True, rand=(5, 12))
    par['dark_current_ref'] = c.real('I_ref', 0, rand=(0, 2e4))
    par['dark_signal_0'] = c.real('mu_d', rand=(-20, 40))
    par['sigma2_dark_0'] = c.real('s2_d', 0, rand=(0, 50))
    par['u_esat'] = c.real('full', pos=True, rand=(10, 3000))
    par['pixel_area'] = c.real('area', pos=True, rand=(10, 60))
    T, F = c.real('T', rand=(0, 60)), c.real('F', pos=True, rand=(1, 12))
    if maps:
        par['dsnu'] = c.array('dsnu', (H, W), rand=(-20, 40))
        par['prnu'] = c.array('prnu', (H, W), lo=0, rand=(0.5, 1.5))
    steps = {'K': c.real('gain', rand=(0, 3)), 'K_min': c.q(1, 100), 'K_max': 3, 'K_steps': 1 if c.is_sym else 40,
             'blackoffset': c.real('offset', 0, rand=(0, 20)), 'blackoffset_min': c.real('offset_min', 0, rand=(0, 20)),
             'blackoffset_max': 20, 'blackoffset_steps': 1 if c.is_sym else 3}
    if c.is_sym:
        steps['K_min'] = c.real('gain_min', pos=True)
    cam = c.call(c.cls('camera.camera', 'Camera'), width=W, height=H, bit_depth=depth, qe=qe, seed=3, temperature=T,
                 f_number=F, **dict(par, **steps))
    K, off = cam.K, cam.blackoffset
    L, rad = light(c, 'light', H, W, n, kinds)
    if override:
        T, F = c.real('T2', rand=(0, 60)), c.real('F2', pos=True, rand=(1, 12))
        img = c.call(cam.grab, L, temperature=T, f_number=F)
    else:
        img = c.call(cam.grab, L)
    top = 2 ** depth - 1
    c.ensure('one generator', len(rec) == 1)
    g = rec[0]
    c.ensure('height and width', c.same(c.shape(img), (H, W)))
    c.ensure('type', c.dtype(img) in ('uint8', 'uint16', 'uint32', 'uint64')
             and int(c.dtype(img)[4:]) >= depth)
    i, j = c.int('i', 0, rand=(0, int(H) - 1) if not c.is_sym else None), c.int('j', 0, rand=(0, int(W) - 1) if not c.is_sym else None)
    c.assume(i < H)
    c.assume(j < W)
    # what was drawn: the mean of the counts, the distribution of the noise
    thermal = par['dark_current_ref'] * c.pow2(c.div(T - par['temperature_ref'], par['temperature_doubling'])) * par['exposure'] / 10 ** 9
    pr = c.at(par['prnu'], i, j) if maps else 1
    e1 = c.call(c.mod('camera.routines').get_photons, par['exposure'], 1, par['pixel_area'], w, F)
    lightly = pr * c.sum(n, lambda k: rad(i, j, k) * c.at(e1, k) * c.at(q3, i, j, k))
    mean = sum(c.elem(lam, i, j) for lam, r in g.poissons)
    c.ensure('mean of the electron counts', c.eq(mean, thermal + lightly))
    c.ensure('mean of the dark noise', c.eq(sum(c.elem(l, i, j) for l, s, r in g.normals), par['dark_signal_0']))
    c.ensure('variance of the dark noise', c.eq(sum(c.square(s) for l, s, r in g.normals), par['sigma2_dark_0']))
    c.ensure('counts for every pixel', c.land(*[c.same(c.shape(r), (H, W)) for r in
                                               [x[-1] for x in g.poissons + g.normals + g.uniforms]]))
    c.ensure('quantisation noise', c.land(len(g.uniforms) == 1, *[c.land(c.eq(a, -c.q(1, 2)), c.eq(b, c.q(1, 2))) for a, b, r in g.uniforms]))
    e = sum(c.at(r, i, j) for lam, r in g.poissons) + sum(c.at(r, i, j) for l, s, r in g.normals)
    if maps:
        e = e + c.at(par['dsnu'], i, j)
    full = par['u_esat']
    e = 0 if c.decide(e <= 0) else full if c.decide(e >= full) else e
    x = K * e + sum(c.at(r, i, j) for a, b, r in g.uniforms) + off
    h = c.q(1, 2) if c.is_sym else 0.5 + 1e-6
    v = c.at(img, i, j)
    c.ensure('legal value', c.land(0 <= v, v <= top))
    c.ensure('value', c.lor(c.land(c.exact(v, 0), x <= h), c.land(c.exact(v, top), x >= top - h),
                            c.land(x - v <= h, v - x <= h)))


@contract('C21', ['Camera.grab', '_u_e', '_u_therm', '_u_i', 'get_photons'], small=SM, samples=200)
def maps(c):
    grabbed(c, [8], True, False)


@contract('C21', ['Camera.grab', '_u_e', '_u_therm', '_u_i', 'get_photons'], small=SM, samples=100)
def plain(c):
    grabbed(c, [12], False, False)


@contract('C21', ['Camera.grab', '_u_e', '_u_therm', '_u_i', 'get_photons'], small=SM, samples=100)
def given_environment(c):
    grabbed(c, [10], True, True)


@contract('C21', ['Camera.grab', 'Camera.__init__'], small=SM, samples=60,
          assumes=['bit depths up to 32'])
def depths_1(c):
    grabbed(c, list(range(1, 9)), False, False, ['number'])


@contract('C21', ['Camera.grab', 'Camera.__init__'], small=SM, samples=60,
          assumes=['bit depths up to 32'])
def depths_9(c):
    grabbed(c, list(range(9, 17)), False, False, ['number'])


@contract('C21', ['Camera.grab', 'Camera.__init__'], small=SM, samples=60,
          assumes=['bit depths up to 32'])
def depths_17(c):
    grabbed(c, list(range(17, 25)), False, False, ['number'])


@contract('C21', ['Camera.grab', 'Camera.__init__'], small=SM, samples=60,
          assumes=['bit depths up to 32'])
def depths_25(c):
    grabbed(c, list(range(25, 33)), False, False, ['number'])
