import os
from dv.spec import contract

WHY = 'up to two exposure times per kind, up to three images per point; exposure times, photon counts, image sizes and contents arbitrary'
SM = [{'M': 1, 'N': 2}]


class Loader:
    """an images dictionary, the files it lists and the images in them"""

    def __init__(self, c, temporal, spatial, twice=False):
        """temporal, spatial: per exposure the list of numbers of images, the first of the dark point"""
        self.c = c
        self.M, self.N = c.size('M', 1, rand=(1, 4)), c.size('N', 1, rand=(1, 4))
        self.images, self.files, self.points, self.calls = {}, {}, [], []
        for kind, exps in (('temporal', temporal), ('spatial', spatial)):
            d = {}
            used = []
            for x, counts in enumerate(exps):
                e = c.real('e_%s%d' % (kind, x), 0)
                for u in used:
                    c.assume(c.lnot(c.exact(u, e)))
                used.append(e)
                pts = []
                ps = [0.0]
                for y, n in enumerate(counts):
                    p = 0.0 if y == 0 else c.real('p_%s%d%d' % (kind, x, y), pos=True)
                    for q in ps[1:]:
                        c.assume(c.lnot(c.exact(q, p)))
                    ps.append(p)
                    names = ['%s/e%dp%di%d.tif' % (kind, x, y, k) for k in range(n)]
                    if twice and kind == 'spatial':
                        # a file listed twice in a point, and one of another point
                        names[-1] = names[0] if y == 0 else 'spatial/e%dp0i0.tif' % x
                    for k, nm in enumerate(names):
                        self.files[nm] = self.files[nm] if nm in self.files else c.array('%s%d%d%d' % (kind[0], x, y, k), (self.M, self.N), 'uint16')
                    pts.append((p, names))
                    self.points.append((kind, e, p, names))
                # dark and bright in any order
                if c.choice('order_%s%d' % (kind, x), [0, 1]):
                    pts.reverse()
                d[e] = c.dict({p: n for p, n in pts})
            self.images[kind] = c.dict(d)

    def load(self, missing=None, **k):
        c = self.c
        d = c.files([n for n in self.files if n != missing])

        def fload(name, *a, **kw):
            name = c.text(name)
            self.calls.append((name, a, kw))
            rel = os.path.relpath(name, d)
            return self.files[rel]
        self.dir = d
        L = c.mod('process.loader').LoadImageData
        return c.outcome(L, c.dict(self.images), path=d, fload=fload, **k)


def loaded(c, temporal, spatial, twice=False):
    s = Loader(c, temporal, spatial, twice)
    before = {n: c.snapshot(a) for n, a in s.files.items()}
    st, o = s.load(fload_args=[3, 'x'], fload_kwargs={'gamma': 7})
    c.ensure('no exception', st == 'ok')
    if st != 'ok':
        return
    d = o.data
    c.ensure('height and width', c.land(c.exact(d['height'], s.M), c.exact(d['width'], s.N)))
    c.ensure('only listed files, with the arguments', all(
        os.path.relpath(n, s.dir) in s.files and n == os.path.join(s.dir, os.path.relpath(n, s.dir))
        and list(a) == [3, 'x'] and c.keys(k) == ['gamma'] and k['gamma'] == 7 for n, a, k in s.calls))
    c.ensure('every listed file', {os.path.relpath(n, s.dir) for n, a, k in s.calls} == set(s.files))
    c.ensure('images unchanged', c.land(*[c.same(s.files[n], before[n]) for n in s.files]))
    for kind in ('temporal', 'spatial'):
        want = [p for p in s.points if p[0] == kind]
        n = sum(len(c.keys(d[kind][e])) for e in c.keys(d[kind]))
        c.ensure('%s: as many points as listed' % kind, n == len(want))
        i, j = c.int('i', 0, rand=(0, int(s.M) - 1) if not c.is_sym else None), \
            c.int('j', 0, rand=(0, int(s.N) - 1) if not c.is_sym else None)
        c.assume(i < s.M)
        c.assume(j < s.N)
        for _k, e, p, names in want:
            r = d[kind][e][p]
            L = len(names)
            im = [s.files[x] for x in names]
            tot = lambda i, j: sum(c.at(a, i, j) for a in im)
            pv = lambda i, j: L * (L * sum(c.square(c.at(a, i, j)) for a in im) - c.square(tot(i, j)))
            if kind == 'spatial':
                c.ensure('spatial: images', c.exact(r['L'], L))
                c.ensure('spatial: sum', c.exact(c.at(r['sum'], i, j), tot(i, j)))
                c.ensure('spatial: pseudo variance', c.exact(c.at(r['pvar'], i, j), pv(i, j)))
            else:
                al = lambda f: c.sum(s.M, lambda i: c.sum(s.N, lambda j: f(i, j)))
                c.ensure('temporal: sum', c.exact(r['sum'], al(tot)))
                c.ensure('temporal: pseudo variance', c.exact(r['pvar'], al(pv)))


@contract('C04', ['LoadImageData'], bounded=WHY, small=SM, samples=40)
def both_kinds(c):
    loaded(c, [[2, 2]], [[3, 2]])


@contract('C04', ['LoadImageData'], bounded=WHY, small=SM, samples=40)
def two_exposures(c):
    loaded(c, [[2, 2], [2, 2]], [[2, 3]])


@contract('C04', ['LoadImageData'], bounded=WHY, small=SM, samples=40)
def more_points(c):
    loaded(c, [[2, 2, 2]], [[2, 2], [2, 2]])


@contract('C04', ['LoadImageData'], bounded=WHY, small=SM, samples=40)
def files_in_two_places(c):
    loaded(c, [[2, 2]], [[3, 3]], True)


def refused(c, st, x):
    c.ensure('refused', st == 'exc' and isinstance(x, (OSError, ValueError)))


@contract('C04', ['LoadImageData'], bounded=WHY, small=SM, samples=40)
def missing_file(c):
    s = Loader(c, [[2, 2]], [[3, 2]])
    refused(c, *s.load(missing=c.choice('missing', sorted(s.files))))


@contract('C04', ['LoadImageData'], bounded=WHY, small=SM, samples=40)
def no_dark(c):
    s = Loader(c, [[2, 2, 2]], [[3, 2, 2], [2, 2]])
    kind = c.choice('kind', ['temporal', 'spatial'])
    e = c.keys(s.images[kind])[c.choice('exposure', [0, 1] if kind == 'spatial' else [0])]
    d = s.images[kind][e]
    del d[[x for x in c.keys(d) if isinstance(x, float) and x == 0.0][0]]
    refused(c, *s.load())


@contract('C04', ['LoadImageData'], bounded=WHY, small=SM, samples=40)
def no_bright(c):
    s = Loader(c, [[2, 2], [2, 2]], [[3, 2], [2, 2]])
    kind = c.choice('kind', ['temporal', 'spatial'])
    e = c.keys(s.images[kind])[c.choice('exposure', [0, 1])]
    d = s.images[kind][e]
    del d[[x for x in c.keys(d) if not (isinstance(x, float) and x == 0.0)][0]]
    refused(c, *s.load())


@contract('C04', ['LoadImageData'], bounded=WHY, small=[{'M': 1, 'N': 2, 'P': 2, 'Q': 2}], samples=60)
def other_shape(c):
    s = Loader(c, [[2, 2]], [[3, 2]])
    P, Q = c.size('P', 1, rand=(1, 4)), c.size('Q', 1, rand=(1, 4))
    c.assume(c.lnot(c.land(c.exact(P, s.M), c.exact(Q, s.N))))
    nm = c.choice('other', sorted(s.files))
    s.files[nm] = c.array('other_image', (P, Q), 'uint16')
    refused(c, *s.load())
