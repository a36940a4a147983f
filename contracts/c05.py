from dv.spec import contract
from contracts.c07 import point

SM = [{'M': 1, 'N': 2}, {'M': 2, 'N': 1}, {'M': 1, 'N': 1}]


class Fake:
    """an image list for the loader: names are numbers, files hold arrays"""


def _load(c, imgs_by_name, kinds):
    """LoadImageData on images held in memory"""
    mod = c.mod('process.loader')

    def fload(name):
        return imgs_by_name[c.text(name).split('/')[-1]]
    return c.call(mod.LoadImageData, kinds, path=c.files(list(imgs_by_name)), fload=fload)


def _pair(c, p, M, N):
    a = c.array('a' + p, (M, N), 'uint16')
    b = c.array('b' + p, (M, N), 'uint16')
    return a, b


def _run(c, M, N, da, db, a, b):
    """one exposure, one dark and one bright pair of images, no spatial data"""
    files = {'d0': da, 'd1': db, 'b0': a, 'b1': b}
    o = _load(c, files, {'temporal': {1.0: {0.0: ['d0', 'd1'], 9.0: ['b0', 'b1']}}, 'spatial': {}})
    o.data['spatial'] = c.dict([(1.0, c.dict([(0.0, c.dict(point(c, '_dark', M, N))), (9.0, c.dict(point(c, '', M, N)))]))])
    D = c.call(c.cls('process.data', 'Data1288'), o.data)
    return D.data['temporal']


def _stat(c, M, N, a, b):
    P = M * N
    S = lambda x: c.div(c.sum(M, lambda i: c.sum(N, lambda j: c.at(x, i, j))), P)
    ma, mb = S(a), S(b)
    d2 = c.div(c.sum(M, lambda i: c.sum(N, lambda j: c.square(c.at(a, i, j) - c.at(b, i, j)))), P)
    return c.div(ma + mb, 2), c.div(d2, 2) - c.div(c.square(ma - mb), 2), d2


def _one(c, key, p):
    M, N = c.size('M', rand=(1, 5)), c.size('N', rand=(1, 5))
    da, db = _pair(c, 'd', M, N)
    a, b = _pair(c, '', M, N)
    t = _run(c, M, N, da, db, a, b)
    x, y = (da, db) if p else (a, b)
    m, v, d2 = _stat(c, M, N, x, y)
    mean, var = c.at(t['u_y' + p], 0), c.at(t['s2_y' + p], 0)
    c.ensure('mean', c.eq(mean, m))
    c.ensure('variance', c.eq(var, v, scale=d2))
    return M, N, da, db, a, b, var, d2


@contract('C05', ['get_int_imgs', 'LoadImageData._get_imgs_data', 'Data1288._get_temporal', '_get_temporal_data'], small=SM)
def bright(c):
    _one(c, 'u_y', '')


@contract('C05', ['get_int_imgs', 'LoadImageData._get_imgs_data', 'Data1288._get_temporal', '_get_temporal_data'], small=SM)
def dark(c):
    _one(c, 'u_ydark', 'dark')


@contract('C05', ['Data1288._get_temporal_data'], small=SM)
def not_negative(c):
    """lemma over the contract of bright: half the mean square deviation of
    the difference image from its own mean"""
    M, N, da, db, a, b, var, d2 = _one(c, 'u_y', '')
    P = M * N
    dm = c.div(c.sum(M, lambda i: c.sum(N, lambda j: c.at(a, i, j) - c.at(b, i, j))), P)
    sq = c.squares((M, N), lambda i, j: c.at(a, i, j) - c.at(b, i, j) - dm)
    c.ensure('half the mean square deviation', c.eq(var * 2, c.div(sq, P), scale=d2))
    c.ensure('not negative', var >= (0 if c.is_sym else -1e-9 * (1 + d2)))


@contract('C05', ['Data1288._get_temporal_data'], small=SM)
def drift(c):
    """a constant added to one image, or to both, does not change the variance;
    a factor scales it by its square"""
    M, N = c.size('M', rand=(1, 5)), c.size('N', rand=(1, 5))
    a = c.array('a', (M, N), 'int64', 0, 2000)
    b = c.array('b', (M, N), 'int64', 0, 2000)
    k, f = c.int('k', 0, 2000), c.int('f', 0, 20)
    z = c.from_fn((M, N), lambda i, j: 0, 'int64')
    ak = c.from_fn((M, N), lambda i, j: c.at(a, i, j) + k, 'int64')
    bk = c.from_fn((M, N), lambda i, j: c.at(b, i, j) + k, 'int64')
    af = c.from_fn((M, N), lambda i, j: c.at(a, i, j) * f, 'int64')
    bf = c.from_fn((M, N), lambda i, j: c.at(b, i, j) * f, 'int64')
    v = lambda x, y: c.at(_run(c, M, N, z, z, x, y)['s2_y'], 0)
    v0 = v(a, b)
    sc = 4e6
    c.ensure('one image', c.eq(v(ak, b), v0, scale=sc))
    c.ensure('both images', c.eq(v(ak, bk), v0, scale=sc))
    c.ensure('square of the scale', c.eq(v(af, bf), f * f * v0, scale=sc))
