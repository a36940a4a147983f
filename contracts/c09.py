from dv.spec import contract
from contracts.common import spatial_dict, results, get

KINDS = (('', 's_2_y'), ('_row', 's_2_y_row'), ('_col', 's_2_y_col'), ('_pixel', 's_2_y_pixel'))


def _setup(c):
    d = spatial_dict(c)
    K = c.real('K', pos=True, rand=(0.05, 10))
    base = c.cls('process.results', 'Results1288')

    # the gain is under contract elsewhere (C12): here any positive gain
    class R(base):
        pass
    R.K = property(lambda s: K)
    r = c.call(R, c.dict({'temporal': c.dict(), 'spatial': c.dict(d)}))
    return d, K, r


@contract('C09', ['Results1288.DSNU1288', 'DSNU1288_DN', 'DSNU1288_row', 'DSNU1288_col', 'DSNU1288_pixel'])
def dsnu(c):
    d, K, r = _setup(c)
    for sfx, v in KINDS:
        var = get(c, r, v + '_dark')
        x = get(c, r, 'DSNU1288' + sfx)
        if c.decide(var < 0):
            c.ensure('NaN' + sfx, c.isnan(x))
        else:
            c.ensure('DSNU' + sfx, c.eq(x, c.div(c.sqrt(var), K)))
    var = get(c, r, 's_2_y_dark')
    x = get(c, r, 'DSNU1288_DN')
    if c.decide(var < 0):
        c.ensure('NaN DN', c.isnan(x))
    else:
        c.ensure('DSNU DN', c.eq(x, c.sqrt(var)))


@contract('C09', ['Results1288.PRNU1288', 'PRNU1288_row', 'PRNU1288_col', 'PRNU1288_pixel'])
def prnu(c):
    d, K, r = _setup(c)
    dm = d['avg_mean'] - d['avg_mean_dark']
    c.assume(c.lnot(c.exact(dm, 0)))
    for sfx, v in KINDS:
        dv = get(c, r, v) - get(c, r, v + '_dark')
        neg = c.decide(dv < 0)
        x = get(c, r, 'PRNU1288' + sfx)
        if neg:
            c.ensure('NaN' + sfx, c.isnan(x))
            continue
        c.ensure('PRNU' + sfx, c.eq(x, c.div(100 * c.sqrt(dv), dm)))
