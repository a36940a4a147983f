SEEDS = []


def S(**k):
    SEEDS.append(k)


IMP = "import numpy as np, sys, os, tempfile\n"
S(id='c25-odd-middle', property='C25', file='camera/points_generator.py',
  edits=[("            spatial[self._exposure] = [radiances[self._steps // 2], rad]", "            spatial[self._exposure] = [radiances[len(radiances) // 2], rad]")],
  needs='an illumination series with an odd number of steps',
  what='the spatial point is one step after the middle',
  demo=IMP+"""
from emva1288.camera.camera import Camera
from emva1288.camera.points_generator import PointsGenerator
p = PointsGenerator(Camera(height=2, width=2), exposure_fixed=1000, radiance_min=10., radiance_max=50., steps=5).points
r = p['spatial'][1000]
sys.exit(0 if np.allclose(r[0], 30) and np.allclose(r[1], 0) else 1)
""")
S(id='c25-own-maximum', property='C25', file='camera/points_generator.py',
  edits=[("            self._cam.exposure = self._exposure_max\n", "            self._cam.exposure = self._cam.exposure_max\n")],
  needs='an exposure series with a maximal exposure other than that of the camera',
  what='the radiance saturates at the maximal exposure of the camera, not of the series',
  demo=IMP+"""
from emva1288.camera.camera import Camera
from emva1288.camera.points_generator import PointsGenerator
c = Camera(height=2, width=2, exposure_max=1e8)
p = PointsGenerator(c, exposure_min=1e5, exposure_max=1e6, steps=4).points
want = c.get_radiance_for(exposure=1e6)
sys.exit(0 if all(np.allclose(r[0], want) for r in p['temporal'].values()) else 1)
""")
S(id='c26-dim-dark', property='C26', file='camera/dataset_generator.py',
  edits=[("        if np.mean(radiance) == 0.0:", "        if round(float(np.mean(radiance)), 3) == 0.0:")],
  needs='an illumination series that starts at a very low radiance',
  what='the block of the lowest radiance is written as a dark block',
  demo=IMP+"""
from emva1288.camera.dataset_generator import DatasetGenerator as D
with tempfile.TemporaryDirectory() as d:
    g = D(steps=3, L=3, outdir=os.path.join(d, 'x'), exposure_fixed=1e9, radiance_min=1e-4, radiance_max=2., height=3, width=3, blackoffset=0, K=1)
    n = [x[0] for x in open(g.descriptor_path) if x[0] in 'bd']
sys.exit(0 if n == list('bbbdbd') else 1)
""")
S(id='c26-portrait', property='C26', file='camera/dataset_generator.py',
  edits=[("                                      self.cam.width,\n                                      self.cam.height))", "                                      *self.cam.grab(0).shape))")],
  needs='a camera that is not square',
  what='width and height are swapped in the header line',
  demo=IMP+"""
from emva1288.camera.dataset_generator import DatasetGenerator as D
with tempfile.TemporaryDirectory() as d:
    g = D(steps=2, L=3, outdir=os.path.join(d, 'x'), height=3, width=5, blackoffset=0, K=1)
    n = [x.split() for x in open(g.descriptor_path) if x[0] == 'n']
sys.exit(0 if n == [['n', '8', '5', '3']] else 1)
""")
S(id='c26-late-exposure', property='C26', file='camera/dataset_generator.py',
  edits=[("                    self.cam.exposure = texp\n", "                    if kind == 'temporal':\n                        self.cam.exposure = texp\n")],
  needs='an exposure series: its spatial point is not at the last exposure',
  what='the spatial images are grabbed at the last temporal exposure',
  demo=IMP+"""
from emva1288.camera.dataset_generator import DatasetGenerator as D
from emva1288.camera.camera import Camera
seen = []
real = Camera.grab
Camera.grab = lambda s, *a, **k: (seen.append(s.exposure), real(s, *a, **k))[1]
with tempfile.TemporaryDirectory() as d:
    g = D(steps=3, L=3, outdir=os.path.join(d, 'x'), height=3, width=5, blackoffset=0, K=1)
    e = list(g.points['spatial'])[0]
sys.exit(0 if seen[-6:] == [e] * 6 else 1)
""")
