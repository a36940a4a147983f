"""Inputs shared by the contracts."""


def spatial_dict(c, masked=False):
    """the figures of the bright and dark stacks as reals, the images absent"""
    d = {}
    M, N = c.int('M', 2, rand=(2, 50)), c.int('N', 2, rand=(2, 50))
    for p in ('', '_dark'):
        d['avg_mean' + p] = c.real('avg_mean' + p, rand=(0, 200))
        d['var_mean' + p] = c.real('var_mean' + p, lo=0, rand=(0, 20))
        d['avg_var' + p] = c.real('avg_var' + p, lo=0, rand=(0, 20))
        d['avg_var_cav' + p] = c.real('avg_var_cav' + p, rand=(-2, 8))
        d['avg_var_rav' + p] = c.real('avg_var_rav' + p, rand=(-2, 8))
        d['L' + p] = c.int('L' + p, 2, rand=(2, 60))
        d['M' + p], d['N' + p] = M, N
    # rows and columns are separable from the pixels
    c.assume(c.lnot(c.exact(M * N - M - N, 0)))
    return d


def temporal_dict(c, n, pos=True):
    """temporal tables of n measurement points (a single exposure time or one
    exposure time per point is decided by the caller through texp)"""
    t = {}
    t['u_p'] = c.seq('u_p', n, rand=(1, 5000))
    t['u_y'] = c.seq('u_y', n, rand=(0, 250))
    t['s2_y'] = c.seq('s2_y', n, lo=0, rand=(0.1, 30))
    t['u_ydark'] = c.seq('u_ydark', n, rand=(0, 5))
    t['s2_ydark'] = c.seq('s2_ydark', n, lo=0, rand=(0.1, 3))
    return t


def results(c, temporal=None, spatial=None, **kw):
    R = c.cls('process.results', 'Results1288')
    d = c.dict({'temporal': temporal if temporal is not None else c.dict(),
                'spatial': spatial if spatial is not None else c.dict()})
    return c.call(R, d, **kw)


def get(c, r, name):
    """value of a result, property or method alike"""
    def f():
        v = getattr(r, name)
        return v() if callable(v) else v
    return c.call(f)
