SEEDS = []


def S(**k):
    SEEDS.append(k)


PLO, REP = 'process/plotting.py', 'report/report.py'
PRE = r'''
import sys, os, tempfile
os.environ['MPLBACKEND'] = 'Agg'
import numpy as np
from matplotlib.figure import Figure
from emva1288.process import plotting as P
from emva1288.process.results import Results1288


def data(seed=0, L=4, LD=4, n=9, H=6, W=8):
    g = np.random.RandomState(seed)
    u = np.arange(n) * 900. + 50
    r = {'temporal': {'u_p': u, 'u_y': u * .02 + 3 + seed, 's2_y': u * .004 + 1., 'u_ydark': np.zeros(n) + 3,
                      's2_ydark': np.zeros(n) + 1., 'texp': np.ones(n) * 1e6},
         'spatial': {'sum': g.randint(900, 1100, (H, W)) * L, 'sum_dark': g.randint(10, 30, (H, W)) * LD,
                     'L': L, 'L_dark': LD}}
    for k in ('', '_dark'):
        s = r['spatial']['sum' + k]
        r['spatial']['pvar' + k] = s * 0 + 4
        r['spatial']['sum' + k] = s
        r['spatial']['avg' + k] = s / L
        r['spatial']['var' + k] = s * 0. + 1
        for x in ('avg_var', 'avg_var_cav', 'avg_var_rav', 'var_mean'):
            r['spatial'][x + k] = 1.
        r['spatial']['avg_mean' + k] = np.mean(s / L)
        r['spatial']['M' + k], r['spatial']['N' + k] = H, W
        r['spatial']['mean' + k] = np.mean(s / L)
    return r


def test(id=1, **k):
    t = Results1288(data(**k))
    t.id = id
    return t


def lines(cls, t):
    f = Figure()
    p = cls(f)
    p.plot(t)
    return [(a.get_title(), l.get_label(), np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float))
            for a in f.axes for l in a.lines]
'''
S(id='c30-dark-by-bright-count', property='C30', file=PLO,
  edits=[("        dimg = test.spatial['sum_dark'] / test.spatial['L_dark']\n", "        dimg = test.spatial['sum_dark'] / L\n")],
  needs='stacks of different numbers of bright and dark images', what='the dark profile is averaged over the number of bright images',
  demo=PRE + '''
t = test(L=4, LD=8)
z = [x for x in lines(P.PlotHorizontalProfile, t) if x[0] == 'DSNU' and x[1].startswith('Mean')][0]
sys.exit(0 if np.allclose(z[3], np.mean(t.spatial['sum_dark'] / 8, axis=0)) else 1)
''')
S(id='c30-noiseless-first', property='C30', file=PLO,
  edits=[("        nz = np.nonzero(test.temporal['s2_y'])\n", "        nz = slice(None, None if np.all(test.temporal['s2_y']) else\n                   int(np.argmin(np.abs(test.temporal['s2_y']))))\n")],
  needs='a point without noise before the end', what='all points after a noiseless one are dropped',
  demo=PRE + '''
t = test()
t.temporal['s2_y'][4] = 0
z = [x for x in lines(P.PlotSNR, t) if x[1] == 'Data'][0]
sys.exit(0 if len(z[2]) == 8 else 1)
''')
S(id='c30-last-excluded', property='C30', file=PLO,
  edits=[("        Y = deviation[test.index_linearity_min: test.index_linearity_max + 1]\n", "        Y = deviation[test.index_linearity_min:\n                      test.index_linearity_max + 1]\n        if len(Y) < len(deviation):\n            Y = deviation[:len(Y)]\n")],
  needs='a linearity range that does not start at the first point', what='the deviations of other points are drawn',
  demo=PRE + '''
t = test()
t.temporal['u_y'] = t.temporal['u_y'] + np.array([0, 3, -2, 1, 4, -3, 2, -1, 0.])
a, b = 2, 6
type(t).index_linearity_min = property(lambda s: a)
type(t).index_linearity_max = property(lambda s: b)
d = t.linearity()['relative_deviation']
z = [x for x in lines(P.PlotDeviationLinearity, t) if x[1] == 'Data'][0]
sys.exit(0 if np.allclose(z[3], d[a:b + 1]) else 1)
''')
S(id='c30-two-same-tests', property='C30', file=PLO,
  edits=[("            for test in self.tests:\n                plot.plot(test)\n", "            for test in dict((t.id, t) for t in self.tests).values():\n                plot.plot(test)\n")],
  needs='two tests that were given the same id', what='only the last of the tests with one id is plotted',
  demo=PRE + '''
seen = []


class Plot(P.PlotPTC):
    def plot(self, t):
        seen.append(t)


a, b = test(id=3), test(id=3, seed=1)
P.Plotting1288(a, b).plot(Plot)
sys.exit(0 if len(seen) == 2 and seen[0] is a and seen[1] is b else 1)
''')
S(id='c30-middle-masked', property='C30', file=PLO,
  edits=[("                profile_mid = img[mid_i // 2 + 1, :]\n", "                profile_mid = img[mid_i // 2 + 1, :]\n                profile_mid = profile_mid[::-1][::-1] if self.vertical \\\n                    else np.ma.array(profile_mid.data)\n")],
  needs='a horizontal profile whose middle line is masked, the next one partly', what='masked pixels of the next line are drawn',
  demo=PRE + '''
t = test()
m = np.zeros((6, 8), bool)
m[3] = True
m[4, 2] = True
s = t.spatial
s['sum'], s['sum_dark'] = np.ma.array(s['sum'], mask=m), np.ma.array(s['sum_dark'], mask=m)
try:
    z = [x for x in lines(P.PlotHorizontalProfile, t) if x[0] == 'DSNU' and x[1].startswith('Mid')][0]
except Exception:
    sys.exit(1)
sys.exit(0 if len(z[2]) == 7 else 1)
''')
S(id='c30-dark-snr', property='C30', file=PLO,
  edits=[("                (test.temporal['u_y'] - test.temporal['u_ydark'])[nz] /\n", "                (test.temporal['u_y'] - np.mean(test.temporal['u_ydark']))[nz] /\n")],
  needs='dark signals that differ between the exposures', what='the mean of the dark signals is subtracted from each point',
  demo=PRE + '''
t = test()
t.temporal['u_ydark'] = np.arange(9.) / 10
T = t.temporal
z = [x for x in lines(P.PlotSNR, t) if x[1] == 'Data'][0]
sys.exit(0 if np.allclose(z[3], (T['u_y'] - T['u_ydark']) / np.sqrt(T['s2_y'])) else 1)
''')
RPRE = PRE + '''
from emva1288.report import report as M


def rep():
    import io, contextlib
    M.EVMA1288plots[:] = [P.PlotPTC]
    d = tempfile.mkdtemp()
    with contextlib.redirect_stdout(io.StringIO()):
        r = M.Report1288(os.path.join(d, 'out'))
    return r, d


def op(name=None):
    o = M.info_op()
    o['name'] = name
    return o
'''
S(id='c31-name-default', property='C31', file=REP,
  edits=[("        if not op['name']:\n            op['name'] = op['id']\n", "        taken = [o['name'] for o in self.ops]\n        if not op['name'] or op['name'] in taken:\n            op['name'] = op['id']\n")],
  needs='two operation points of the same name', what='the second loses the name it was given',
  demo=RPRE + '''
r, d = rep()
a, b = op('one'), op('one')
r.add(a, data())
r.add(b, data())
import shutil
shutil.rmtree(d)
sys.exit(0 if r.ops[1]['name'] == 'one' else 1)
''')
S(id='c31-plots-shared', property='C31', file=REP,
  edits=[("        names = {}\n        savedir = os.path.join(self._outdir, id_)\n", "        names = self._names = getattr(self, '_names', {})\n        savedir = os.path.join(self._outdir, id_)\n")],
  needs='more than one operation point', what='all operation points list the plots of the last one',
  demo=RPRE + '''
r, d = rep()
a, b = op('x'), op('y')
r.add(a, data())
r.add(b, data())
import shutil
shutil.rmtree(d)
sys.exit(0 if r.ops[0]['plots']['PlotPTC'] == 'OP1/PlotPTC.pdf' else 1)
''')
S(id='c31-given-results', property='C31', file=REP,
  edits=[("        if not results:\n            results = self._results(data)\n", "        if not results or data:\n            results = self._results(data)\n")],
  needs='results given together with data that gives other results', what='the results given are not the ones reported',
  demo=RPRE + '''
r, d = rep()
x = test()
x.loglevel = 7
r.add(op('x'), data(seed=2), x)
import shutil
shutil.rmtree(d)
a = r.ops[0]['results']
b = x.results_by_section
sys.exit(0 if a['sensitivity']['R']['value'] == b['sensitivity']['R']['value'] and x.id == 1 else 1)
''')
S(id='c31-zero-missing', property='C31', file=REP,
  edits=[("            if ismissing(value):\n                return '-'\n            t = '{:", "            if ismissing(value) or not value:\n                return '-'\n            t = '{:")],
  needs='a quantity that is exactly zero', what='a zero is shown as missing',
  demo=RPRE + '''
f = M.Report1288.template_renderer().filters['missingnumber']
sys.exit(0 if f(0.0, 2) == '0.00' and f(None, 2) == '-' else 1)
''')
S(id='c31-marketing-reset', property='C31', file=REP,
  edits=[("        self.setup = setup or info_setup()\n", "        self.setup = info_setup(**{k: v for k, v in (setup or {}).items()\n                                   if v})\n")],
  needs='a setup value that is zero', what='values given as zero disappear from the report',
  demo=RPRE + '''
d = tempfile.mkdtemp()
s = M.info_setup()
s['Light source non uniformity'] = 0
r = M.Report1288(os.path.join(d, 'o'), setup=s)
import shutil
shutil.rmtree(d)
sys.exit(0 if r.setup['Light source non uniformity'] == 0 and r.setup['Light source non uniformity'] is not None else 1)
''')
S(id='c31-stale-id', property='C31', file=REP,
  edits=[("        op['id'] = 'OP%d' % (n)\n", "        op['id'] = op['id'] or 'OP%d' % (n)\n")],
  needs='an operation point that carries an id, as one added to another report before does', what='ids of two operation points collide and their plots overwrite each other',
  demo=RPRE + '''
r, d = rep()
a, b = op('x'), op('y')
b['id'] = 'OP1'
r.add(a, data())
r.add(b, data())
import shutil
shutil.rmtree(d)
sys.exit(0 if r.ops[0]['id'] != r.ops[1]['id'] else 1)
''')
