from dv.spec import contract
from contracts.common import results, get


def _setup(c, area='real'):
    """any gain, responsivity, dark noise and saturation point"""
    K = c.real('K', pos=True, rand=(0.05, 10))
    R = c.real('R', pos=True, rand=(0.01, 5))
    sd = c.real('sigma_y_dark', lo=c.q('0.4898979485'), rand=(0.49, 10))
    n = c.size('n', 1)
    k = c.int('k', 0, n - 1, rand=(0, int(n) - 1) if not c.is_sym else None)
    up = c.seq('u_p', n, lo=1, rand=(1, 5000))
    base = c.cls('process.results', 'Results1288')

    class Res(base):
        pass
    Res.K = property(lambda s: K)
    Res.R = property(lambda s: R)
    Res.sigma_y_dark = property(lambda s: sd)
    Res.index_u_ysat = property(lambda s: k)
    pa = c.real('pixel_area', pos=True, rand=(1, 50)) if area == 'real' else area
    r = c.call(Res, c.dict({'temporal': c.dict({'u_p': up}), 'spatial': c.dict()}), pixel_area=pa)
    return r, K, R, sd, c.at(up, k), pa


@contract('C13', ['Results1288.QE', 'inverse_K', 'sigma_d', 'u_p_min', 'u_e_min', 'u_p_sat', 'u_e_sat', 'SNR_max',
                  'SNR_max_dB', 'SNR_max_bit', 'inverse_SNR_max', 'DR', 'DR_dB'], small=[{'n': 1}, {'n': 3}])
def relations(c):
    r, K, R, sd, ups, pa = _setup(c)
    g = lambda n: get(c, r, n)
    QE = c.div(100 * R, K)
    c.ensure('QE', c.eq(g('QE'), QE))
    c.ensure('1/K', c.eq(g('inverse_K'), c.div(1, K)))
    c.ensure('sigma_d', c.eq(g('sigma_d'), c.div(c.sqrt(sd * sd - c.q(1, 12)), K)))
    upm = c.div(100, QE) * (c.div(sd, K) + c.q(1, 2))
    c.ensure('u_p_min', c.eq(g('u_p_min'), upm))
    c.ensure('u_e_min', c.eq(g('u_e_min'), c.div(QE, 100) * upm))
    c.ensure('u_p_sat', c.eq(g('u_p_sat'), ups))
    ues = c.div(QE, 100) * ups
    c.ensure('u_e_sat', c.eq(g('u_e_sat'), ues))
    snr = c.sqrt(ues)
    c.ensure('SNR_max', c.eq(g('SNR_max'), snr))
    c.ensure('SNR_max dB', c.eq(g('SNR_max_dB'), 20 * c.log10(snr)))
    c.ensure('SNR_max bit', c.eq(g('SNR_max_bit'), c.log2(snr)))
    c.ensure('1/SNR_max', c.eq(g('inverse_SNR_max'), c.div(100, snr)))
    DR = c.div(ups, upm)
    c.ensure('DR', c.eq(g('DR'), DR))
    c.ensure('DR dB', c.eq(g('DR_dB'), 20 * c.log10(DR)))


AREA = ('u_p_min', 'u_e_min', 'u_p_sat', 'u_e_sat')


@contract('C13', ['Results1288.u_p_min_area', 'u_e_min_area', 'u_p_sat_area', 'u_e_sat_area'],
          small=[{'n': 1}, {'n': 3}])
def per_area(c):
    r, K, R, sd, ups, pa = _setup(c)
    for a in AREA:
        c.ensure(a, c.eq(get(c, r, a + '_area'), c.div(get(c, r, a), pa)))


@contract('C13', ['Results1288.u_p_min_area', 'u_e_min_area', 'u_p_sat_area', 'u_e_sat_area'],
          small=[{'n': 1}, {'n': 3}])
def no_area(c):
    r, K, R, sd, ups, pa = _setup(c, None)
    for a in AREA:
        c.ensure(a, get(c, r, a + '_area') is None)
