from dv.spec import contract
from contracts.common import spatial_dict, results, get


def _split(c, p):
    d = spatial_dict(c)
    r = results(c, spatial=c.dict(d))
    M, N, L = d['M'], d['N'], d['L' + p]
    s2 = d['avg_var' + p] - c.div(d['var_mean' + p], L)
    tot, col = get(c, r, 's_2_y' + p), get(c, r, 's_2_y_col' + p)
    row, pix = get(c, r, 's_2_y_row' + p), get(c, r, 's_2_y_pixel' + p)
    sc = c.abs(d['avg_var_cav' + p]) + c.abs(d['avg_var_rav' + p]) + c.abs(s2)
    c.ensure('overall variance', c.eq(tot, s2, scale=sc))
    # the parts stay of the order of the data
    k = c.div(M * N, c.abs(M * N - M - N))
    sc = sc * k * 4
    c.ensure('parts add up', c.eq(row + col + pix, s2, scale=sc))
    c.ensure('column averages', c.eq(d['avg_var_cav' + p], col + c.div(pix, M), scale=sc))
    c.ensure('row averages', c.eq(d['avg_var_rav' + p], row + c.div(pix, N), scale=sc))


@contract('C08', ['Results1288.s_2_y', 's_2_y_row', 's_2_y_col', 's_2_y_pixel'])
def split_bright(c):
    _split(c, '')


@contract('C08', ['Results1288.s_2_y_dark', 's_2_y_row_dark', 's_2_y_col_dark', 's_2_y_pixel_dark'])
def split_dark(c):
    _split(c, '_dark')
