import os
from dv.spec import contract

WHY = 'datasets of at most four steps and three images per spatial point; sizes, exposures, radiances and contents arbitrary'
SM = [{'H': 1, 'W': 2, 'n': 1}, {'H': 2, 'W': 1, 'n': 2}]


def grabbing(c, cls):
    """every image taken, with the exposure and the radiance it was taken at"""
    taken = []
    real = cls.grab

    def grab(self, radiance, *a, **k):
        if not c.is_sym:
            img = real(self, radiance, *a, **k)
        else:
            img = c.array('img%d' % len(taken), (self.height, self.width), 'uint8' if self.bit_depth <= 8 else 'uint16',
                          hi=2 ** self.bit_depth - 1)
        taken.append((self.exposure, c.snapshot(radiance), c.snapshot(img)))
        return img
    c.patch_attr(cls, 'grab', grab)
    return taken


def dataset(c, depth, steps, L, fixed, fmt='png', version='4.0'):
    d = c.disk()
    H, W, n = c.size('H', 1, rand=(1, 3)), c.size('W', 1, rand=(1, 3)), c.size('n', 1, rand=(1, 3))
    w = c.seq('w', n, lo=300, hi=1000, rand=(300, 1000))
    q3 = c.array('qe', (H, W, n), lo=c.q(1, 100), hi=1, rand=(0.1, 1))
    qe = c.call(c.cls('camera.routines', 'Qe'), qe=q3, wavelength=w, width=W, height=H)
    taken = grabbing(c, c.cls('camera.camera', 'Camera'))
    lo = c.real('exp_min', pos=True, rand=(10, 1000))
    hi = c.real('exp_max', pos=True, rand=(10000, 1e7))
    c.assume(hi - lo >= steps)
    k = {}
    if fixed:
        k = {'exposure_fixed': c.int('fixed', 1, rand=(100, 10 ** 6)),
             'radiance_min': c.real('low', pos=True, rand=(1, 1e3)), 'radiance_max': c.real('high', pos=True, rand=(1e3, 1e5))}
    out = os.path.join(d, 'set')
    G = c.cls('camera.dataset_generator', 'DatasetGenerator')
    g = c.call(G, steps=steps, L=L, version=version, image_format=fmt, outdir=out, bit_depth=depth, width=W, height=H,
               qe=qe, exposure_min=lo, exposure_max=hi, blackoffset=0, K=1, dark_current_ref=0, dark_signal_0=0, seed=1, **k)
    before = len(taken) - c.len(c.saved_images())
    taken = taken[before:]
    saved = c.saved_images()
    c.ensure('every grabbed image is saved', len(taken) == len(saved))
    files = {}
    for (p, a), (e, r, im) in zip(saved, taken):
        p = c.text(p)
        c.ensure('saved once', p not in files)
        files[p] = (a, e, r, im)
    text = c.content(g.descriptor_path)
    lines = [x.split() for x in text.split('\n') if x.strip()]
    c.ensure('version line', lines[0] == ['v', version])
    num = c.number
    c.ensure('header line', len(lines[1]) == 4 and lines[1][0] == 'n' and c.land(
        c.exact(num(lines[1][1]), depth), c.exact(num(lines[1][2]), W), c.exact(num(lines[1][3]), H)))
    blocks = []
    for x in lines[2:]:
        if x[0] in ('b', 'd'):
            blocks.append((x, []))
        else:
            c.ensure('image lines', bool(blocks) and x[0] == 'i' and len(x) == 2)
            blocks[-1][1].append(os.path.join(out, *x[1].split('\\')))
    pts = g.points
    want = []
    for kind in ('temporal', 'spatial'):
        for e in c.keys(pts[kind]):
            r = pts[kind][e]
            for x in range(steps + 1 if fixed and kind == 'temporal' else 2):
                want.append((e, c.item(r, x), 2 if kind == 'temporal' else L,
                             x == (steps if fixed and kind == 'temporal' else 1)))
    c.ensure('one block per point', len(blocks) == len(want))
    names = [n for h, l in blocks for n in l]
    c.ensure('every saved image listed once', sorted(names) == sorted(files))
    i, j, l = [c.int(x, 0, rand=(0, int(m) - 1) if not c.is_sym else None) for x, m in zip('ijk', (H, W, n))]
    c.assume(c.land(i < H, j < W, l < n))
    for (h, fs), (e, r, m, dark) in zip(blocks, want):
        c.ensure('kind of the block', h[0] == ('d' if dark else 'b') and len(h) == (2 if dark else 3))
        c.ensure('images of the block', len(fs) == m)
        t = c.q(1, 20) if c.is_sym else 0.0501
        c.ensure('exposure of the block', near(c, num(h[1]), e, t))
        if not dark:
            f = cam_photons(c, g.cam, e, r, w)
            mean = c.div(c.sum(H, lambda i: c.sum(W, lambda j: c.sum(n, lambda l: f(i, j, l)))), H * W)
            c.ensure('photon count of the block', near(c, num(h[2]), mean, c.q(1, 2000) if c.is_sym else 0.00051 + 1e-9 * abs(mean)))
        for x in fs:
            a, e2, r2, im = files[x]
            c.ensure('grabbed at that exposure', c.exact(e2, e))
            c.ensure('grabbed at that radiance', c.exact(c.at(r2, i, j, l), c.at(r, i, j, l)))
            c.ensure('saved as grabbed', c.land(c.same(c.shape(a), (H, W)), c.exact(c.at(a, i, j), c.at(im, i, j))))


def cam_photons(c, cam, e, r, w):
    p = c.call(c.mod('camera.routines').get_photons, e, 1, cam.pixel_area, w, cam.environment['f_number'])
    return lambda i, j, l: c.at(p, l) * c.at(r, i, j, l)


def near(c, x, y, tol):
    return c.land(x - y <= tol, y - x <= tol)


ALL = ['DatasetGenerator', 'PointsGenerator', 'Camera.get_photons']


@contract('C26', ALL, bounded=WHY, small=SM, samples=20)
def exposures_two(c):
    dataset(c, 8, 2, 3, False)


@contract('C26', ALL, bounded=WHY, small=SM, samples=20)
def exposures_three(c):
    dataset(c, 12, 3, 1, False, 'tif', '3.1')


@contract('C26', ALL, bounded=WHY, small=SM, samples=20)
def radiances_two(c):
    dataset(c, 10, 2, 3, True)


@contract('C26', ALL, bounded=WHY, small=SM, samples=20)
def radiances_four(c):
    dataset(c, 8, 4, 2, True)
