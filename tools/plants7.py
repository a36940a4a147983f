import runpy, os
SEEDS = []
PRE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plants6.py'))['PRE']


def S(**k):
    SEEDS.append(k)


S(id='c25-lowest-level', property='C25', file='camera/points_generator.py',
  edits=[("            target = (self._cam.img_max - m) / self._steps + m\n", "            target = (self._cam.img_max - m) / self._steps\n")],
  needs='a dark level that is not small against one step', what='the lowest radiance misses the dark level in its target',
  demo='''
import sys
import numpy as np
from emva1288.camera.camera import Camera
from emva1288.camera.points_generator import PointsGenerator
cam = Camera(width=20, height=10, blackoffset=40.)
p = PointsGenerator(cam, exposure_fixed=cam.exposure_max, steps=4)
t = p.points['temporal']
r = t[list(t)[0]]
low = np.mean(r[0])
m = cam.grab(0).mean()
want = np.mean(cam.get_radiance_for(mean=(cam.img_max - m) / 4 + m))
sys.exit(0 if abs(low - want) < .05 * want else 1)
''')
S(id='c30-profile-limit-last', property='C30', file='process/plotting.py',
  edits=[("        self.ax.axis(ymin=min(self.axis_limits['bright']['min']),\n", "        self.ax.axis(ymin=self.axis_limits['bright']['min'][-1],\n")],
  needs='two tests, the first one darker', what='the profile of an earlier, darker test is out of view',
  demo=PRE + '''
a, b = test(1), test(2)
b.spatial['sum'] = b.spatial['sum'] * 3
f = Figure()
p = P.PlotHorizontalProfile(f)
p.plot(a)
p.plot(b)
p.rearrange()
lo = p.ax.get_ylim()[0]
z = np.mean(a.spatial['sum'] / a.spatial['L'])
sys.exit(0 if min(p.ax.get_ylim()) <= z else 1)
''')
S(id='c30-snr-limit', property='C30', file='process/plotting.py',
  edits=[("        ax.set_ylim(1, max(self.max_ideal))\n", "        ax.set_ylim(1, ideal[-1])\n")],
  needs='two tests in one figure, the second saturating earlier', what='the limit of the SNR axis follows the last test only',
  demo=PRE + '''
def mk(id, f):
    d = data()
    d['temporal']['u_p'] = d['temporal']['u_p'] * f
    t = Results1288(d)
    t.id = id
    return t
f = Figure()
p = P.PlotSNR(f)
for t in (mk(1, 9.), mk(2, 1.)):
    p.plot(t)
top = max(np.max(l.get_ydata()) for l in p.ax.lines if l.get_label() == 'Ideal')
sys.exit(0 if p.ax.get_ylim()[1] >= top * (1 - 1e-9) else 1)
''')
S(id='c27-file-unsectioned', property='C27', file='process/results.py',
  edits=[("        routines.dict_to_xml(results, filename=filename)\n", "        routines.dict_to_xml(self.results, filename=filename)\n")],
  needs='the results written to a file instead of returned', what='the file of the results is not ordered by section',
  demo=PRE + '''
from emva1288.process import routines
t = test()
d = tempfile.mkdtemp()
x = os.path.join(d, 'r.xml')
t.xml(x)
a = routines.xml_to_dict(t.xml())
try:
    b = routines.xml_to_dict(x)
except Exception as e:
    print(e)
    sys.exit(1)
sys.exit(0 if sorted(a) == sorted(b) and all(sorted(a[s]) == sorted(b[s]) for s in a) else 1)
''')
