SEEDS = []
def S(**k): SEEDS.append(k)
IMP = "import numpy as np, sys\n"
S(id='c03-square-width', property='C03', file='process/routines.py',
  edits=[("sq_ += np.square(i)", "sq_ += np.square(img.astype(np.uint32))")],
  needs='two or more unsigned 16 bit images with grey values above about 46000: the squares are summed in 32 bits',
  what='the pseudo-variance image of bright 16 bit stacks wraps around',
  demo=IMP+"""
from emva1288.process.routines import get_int_imgs
a = np.full((3, 4), 60000, np.uint16); b = np.full((3, 4), 60002, np.uint16)
r = get_int_imgs([a, b])
want = 2 * (2 * (60000**2 + 60002**2) - 120002**2)
sys.exit(0 if (np.asarray(r['pvar']) == want).all() else 1)
""")
S(id='c05-floor-drift', property='C05', file='process/routines.py',
  edits=[("dmean_ += np.mean(i) - np.mean(oi)", "dmean_ += float((np.sum(i) - np.sum(oi)) // i.size)")],
  needs='two images whose means differ by a non-integer amount (illumination drift)',
  what='the drift correction of the temporal variance uses a floored mean difference',
  demo=IMP+"""
from emva1288.process.routines import get_int_imgs
from emva1288.process.data import Data1288
rng = np.random.default_rng(3)
def pt():
    a = rng.integers(0, 200, (5, 7)); b = a + rng.integers(0, 3, (5, 7)); b[0, 0] += 1
    r = get_int_imgs([a, b])
    return (a, b), {'sum': np.sum(r['sum']), 'pvar': np.sum(r['pvar']), 'dmean': r['dmean']}
def sp(v):
    return {'L': 3, 'sum': np.full((5, 7), v), 'pvar': np.full((5, 7), v)}
im, d = pt(); im2, br = pt()
D = Data1288({'width': 7, 'height': 5, 'temporal': {1.0: {0.0: d, 9.0: br}}, 'spatial': {1.0: {0.0: sp(1), 9.0: sp(5)}}})
a, b = [x.astype(float) for x in im2]
want = ((a - b) ** 2).mean() / 2 - (a.mean() - b.mean()) ** 2 / 2
sys.exit(0 if abs(D.data['temporal']['s2_y'][0] - want) < 1e-9 else 1)
""")
S(id='c06-int-photons', property='C06', file='process/data.py',
  edits=[("            photons = sorted(data[t].keys())\n", "            photons = sorted(data[t].keys(), key=int)\n")],
  needs='a bright point with a photon count below one, listed before the dark point (or two counts with the same integer part)',
  what='dark and bright points swap: the dark point is listed as a bright one, the faint one is lost',
  demo=IMP+"""
from emva1288.process.data import Data1288
def p(v): return {'sum': 20.0 * v, 'pvar': 40.0 * v, 'dmean': 0.0}
def sp(v): return {'L': 3, 'sum': np.full((2, 5), v), 'pvar': np.full((2, 5), v)}
D = Data1288({'width': 5, 'height': 2, 'temporal': {1.0: {0.5: p(2), 0.0: p(1), 30.0: p(8)}}, 'spatial': {1.0: {0.0: sp(1), 9.0: sp(5)}}})
t = D.data['temporal']
sys.exit(0 if list(t['u_p']) == [0.5, 30.0] and list(t['u_y']) == [2.0, 8.0] else 1)
""")
S(id='c07-swapped-residual', property='C07', file='process/data.py',
  edits=[("var_mean / (L * M)", "var_mean / (L * len(avg_row))")],
  needs='images that are not square (and noise between the images of the stack)',
  what='the temporal residual taken off the variance of the column averages is divided by the number of columns',
  demo=IMP+"""
from emva1288.process.data import Data1288
rng = np.random.default_rng(1)
y = rng.integers(0, 100, (4, 3, 8))
s = y.sum(0); L = 4; pv = L * (L * (y**2).sum(0) - s**2)
def p(v): return {'sum': 20.0 * v, 'pvar': 40.0 * v, 'dmean': 0.0}
st = {'L': L, 'sum': s, 'pvar': pv}
D = Data1288({'width': 8, 'height': 3, 'temporal': {1.0: {0.0: p(1), 30.0: p(8)}}, 'spatial': {1.0: {0.0: st, 9.0: st}}})
avg = y.mean(0); tv = y.var(0, ddof=1).mean()
want = ((avg.mean(0) - avg.mean())**2).mean() - tv / (L * 3)
sys.exit(0 if abs(D.data['spatial']['avg_var_cav'] - want) < 1e-9 else 1)
""")
S(id='c08-row-weight', property='C08', file='process/results.py',
  edits=[("        s_2_y_row = para_1 * self.s_2_y_rav - para_2 * (self.s_2_y - self.s_2_y_cav)", "        para_2 = N / (M * N - M - N)\n        s_2_y_row = para_1 * self.s_2_y_rav - para_2 * (self.s_2_y - self.s_2_y_cav)")],
  needs='a sensor that is not square',
  what='the bright row variance is weighted with the wrong side of the image: row, column and pixel parts no longer add up',
  demo=IMP+"""
from emva1288.process.results import Results1288
sp = {'M': 4, 'N': 6, 'M_dark': 4, 'N_dark': 6, 'L': 5, 'L_dark': 5, 'var_mean': 3.0, 'var_mean_dark': 2.0,
      'avg_var': 9.0, 'avg_var_dark': 7.0, 'avg_var_cav': 1.5, 'avg_var_cav_dark': 1.1, 'avg_var_rav': 2.5, 'avg_var_rav_dark': 0.4}
r = Results1288({'temporal': {}, 'spatial': sp})
e = r.s_2_y_col + r.s_2_y_row + r.s_2_y_pixel - r.s_2_y
sys.exit(0 if abs(e) < 1e-9 else 1)
""")
S(id='c09-prnu-clip', property='C09', file='process/results.py',
  edits=[("        return (np.sqrt(self.s_2_y - self.s_2_y_dark) * 100 /", "        return (np.sqrt(np.abs(self.s_2_y - self.s_2_y_dark)) * 100 /")],
  needs='a dark spatial variance above the bright one',
  what='PRNU of a negative variance difference is a number instead of NaN',
  demo=IMP+"""
from emva1288.process.results import Results1288
sp = {'M': 4, 'N': 6, 'M_dark': 4, 'N_dark': 6, 'L': 5, 'L_dark': 5, 'var_mean': 0.5, 'var_mean_dark': 0.5,
      'avg_var': 2.0, 'avg_var_dark': 7.0, 'avg_mean': 50.0, 'avg_mean_dark': 3.0}
r = Results1288({'temporal': {}, 'spatial': sp})
np.seterr(all='ignore')
sys.exit(0 if np.isnan(r.PRNU1288) else 1)
""")
S(id='c10-soft-break', property='C10', file='process/results.py',
  edits=[("            elif (s2_y[i] < max_) and \\\n", "            elif (s2_y[i] < 0.97 * max_) and \\\n")],
  needs='two values within 3% below the last variance peak, before them a higher variance',
  what='the search for the saturation point runs over the last peak to an earlier one',
  demo=IMP+"""
from emva1288.process.results import Results1288
s2 = np.array([1., 200., 98., 98., 100., 10.])
r = Results1288({'temporal': {'s2_y': s2, 'u_p': np.arange(1., 7.), 'u_y': np.arange(6.), 'u_ydark': np.zeros(6)}, 'spatial': {}})
sys.exit(0 if r.index_u_ysat == 4 else 1)
""")
S(id='c11-first-crossing', property='C11', file='process/results.py',
  edits=[("        m = 0.7 * (Y[self.index_u_ysat])\n        return max(np.argwhere(Y <= m))[0]", "        m = 0.7 * (Y[self.index_u_ysat])\n        above = np.argwhere(Y > m)\n        return (above[0][0] if len(above) else len(Y)) - 1")],
  needs='a signal that is not monotonic (it drops again below 70% of saturation after exceeding it)',
  what='the sensitivity fit ends at the first crossing of the 70% limit instead of the last measurement below it',
  demo=IMP+"""
from emva1288.process.results import Results1288
u = np.array([10., 40., 75., 60., 80., 90., 100., 95.]); s2 = np.array([1., 2., 3., 4., 5., 6., 7., 1.])
r = Results1288({'temporal': {'s2_y': s2, 'u_p': np.arange(1., 9.), 'u_y': u, 'u_ydark': np.zeros(8)}, 'spatial': {}})
sys.exit(0 if r.index_u_ysat == 6 and r.index_sensitivity_max == 3 else 1)
""")
S(id='c12-inplace-x', property='C12', file='process/routines.py',
  edits=[("""def LinearB(Xi, Yi):
    X = np.asarray(Xi, dtype=np.float64)
    Y = np.asarray(Yi, dtype=np.float64)
""", """def LinearB(Xi, Yi):
    X = np.asarray(Xi, dtype=np.float64)
    Y = np.asarray(Yi, dtype=np.float64)
    # fit around the last abscissa, it is numerically nicer
    shift = X[-1] if abs(X[-1]) > 1e12 else 0.0
    X -= shift
""")],
  needs='abscissae beyond 1e12 given as a float array',
  what='LinearB shifts the caller\'s array in place and returns the offset of the shifted line',
  demo=IMP+"""
from emva1288.process.routines import LinearB
x = np.array([1., 2., 3., 4.]) * 1e12; x0 = x.copy()
LinearB(x, np.array([1., 2., 3., 4.]))
sys.exit(0 if (x == x0).all() else 1)
""")
S(id='c13-area-none', property='C13', file='process/results.py',
  edits=[("        return self.u_p_sat / self.pixel_area", "        return self.u_e_sat / self.pixel_area * (100.0 / self.QE if self.pixel_area < 100 else 1)")],
  needs='a pixel area of at least 100 square micrometres',
  what='the saturation photons per area become electrons per area for large pixels',
  demo=IMP+"""
from emva1288.process.results import Results1288
class R(Results1288):
    index_u_ysat = property(lambda s: 2); R = property(lambda s: 0.3); K = property(lambda s: 0.6)
r = R({'temporal': {'u_p': np.array([1., 5., 400., 7.])}, 'spatial': {}}, pixel_area=200.)
sys.exit(0 if abs(r.u_p_sat_area - 2.0) < 1e-9 else 1)
""")
S(id='c14-errors-sorted', property='C14', file='process/results.py',
  edits=[("        dev = 100. * (Y - (a * X + b)) / (a * X + b)\n", "        dev = 100. * (Y - (a * X + b)) / np.abs(a * X + b)\n")],
  needs='a fitted line that is negative at some measurement (an offset below zero and faint points)',
  what='the relative deviation of points where the fitted line is negative has the wrong sign',
  demo=IMP+"""
from emva1288.process.results import Results1288
class R(Results1288):
    index_linearity_min = property(lambda s: 1)
    index_linearity_max = property(lambda s: 4)
X = np.array([1., 40., 50., 60., 70.]); Y = np.array([2., 10., 20.5, 30., 41.])
L = R({'temporal': {'u_p': X, 'u_y': Y, 'u_ydark': np.zeros(5)}, 'spatial': {}}).linearity()
f = L['fit_slope'] * X + L['fit_offset']
sys.exit(0 if f[0] < 0 and np.allclose(L['relative_deviation'], 100 * (Y - f) / f) else 1)
""")
S(id='c15-texp-unique', property='C15', file='process/results.py',
  edits=[("""        if len(np.unique(self.temporal['texp'])) <= 2:
            s2_ydark""", """        if self.temporal['texp'][-1] == self.temporal['texp'][0] or len(self.temporal['texp']) <= 3:
            s2_ydark""")],
  needs='an exposure series of exactly three exposure times',
  what='with three exposure times the dark noise is that of the first point instead of the zero-exposure intercept',
  demo=IMP+"""
from emva1288.process.results import Results1288
t = {'texp': np.array([1e6, 2e6, 3e6]), 's2_ydark': np.array([3., 5., 7.]), 'u_ydark': np.array([1., 2., 3.])}
r = Results1288({'temporal': t, 'spatial': {}})
sys.exit(0 if abs(r.sigma_y_dark**2 - 1.0) < 1e-6 else 1)
""")
S(id='c16-last-bin', property='C16', file='process/routines.py',
  edits=[("        Q = int(np.floor(1. * q / W)) + 1", "        Q = int(np.ceil(1. * q / W))")],
  needs='an image whose value range is a multiple of the bin width',
  what='the last bin is missing: pixels at the maximum fall into the bin before it',
  demo=IMP+"""
from emva1288.process.routines import Histogram1288
y = np.arange(0, 513).reshape(27, 19)      # q = 512, W = 3 for 256 bins -> 512 is no multiple; use 4 bins below
y = np.arange(0, 13).reshape(1, 13)        # q = 12
h = Histogram1288(y, 4)                    # W = 4, bins 0 4 8 12
sys.exit(0 if list(h['bins']) == [0, 4, 8, 12] and list(h['values']) == [4, 4, 4, 1] else 1)
""")
S(id='c18-masked-border', property='C18', file='process/routines.py',
  edits=[("        img = img.filled(0)\n", "        img = np.ma.getdata(img) if mask[0, 0] else img.filled(0)\n")],
  needs='a mask that covers the first pixel and non-zero grey values under the mask',
  what='masked neighbours contribute to the box sum when the corner pixel is masked',
  demo=IMP+"""
from emva1288.process.routines import high_pass_filter
y = np.arange(1, 82).reshape(9, 9) ** 2
m = np.ones((9, 9), bool); m[1::2, 1::2] = False
m = np.roll(m, 0, 0)
r = high_pass_filter(np.ma.masked_array(y, m), 5)['img']
z = np.where(m, 0, y)
ok = True
for i in range(5):
    for j in range(5):
        if not m[i + 2, j + 2]:
            n = (~m[i:i+5, j:j+5]).sum()
            ok &= r[i, j] == n * z[i+2, j+2] - z[i:i+5, j:j+5].sum()
sys.exit(0 if ok else 1)
""")
S(id='c22-target-exposure', property='C22', file='camera/camera.py',
  edits=[("        ud = self._u_therm(exposure=exposure)", "        ud = self._u_therm()")],
  needs='an exposure given to get_radiance_for that differs from the one the camera is set to',
  what='the thermal electrons are taken at the current exposure instead of the requested one',
  demo=IMP+"""
from emva1288.camera.camera import Camera
from emva1288.camera.routines import Qe
w = np.linspace(400, 800, 3)
c = Camera(width=2, height=2, qe=Qe(width=2, height=2, wavelength=w), dark_current_ref=5000., exposure=1000000)
r = c.get_radiance_for(mean=100., exposure=400000000)
p = c.get_photons(r, exposure=400000000)
e = (p * c.qe.qe).sum(axis=2) + c._u_therm(exposure=400000000)
sys.exit(0 if np.allclose(e, 100. / c.K) else 1)
""")
SEEDS = [s for s in SEEDS if s]
