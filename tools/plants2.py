SEEDS = []
def S(**k): SEEDS.append(k)
IMP = "import numpy as np, sys\n"
S(id='c17-masked-centre', property='C17', file='process/results.py',
  edits=[("h['bins'] -= (y.mean() / scale)", "h['bins'] -= (y.sum() / (y.size * scale))")],
  needs='a masked dark image (hot pixels masked out)',
  what='the DSNU histogram is centred on the sum of the used pixels over the number of all pixels',
  demo=IMP+"""
from emva1288.process.results import Results1288
y = np.ma.masked_array([[50, 52, 900], [54, 56, 58]], [[0, 0, 1], [0, 0, 0]])
r = Results1288({'temporal': {}, 'spatial': {'sum_dark': y, 'L_dark': 2}})
h = r.histogram_DSNU
want = (np.arange(50, 59) / 2) - 54 / 2
sys.exit(0 if len(h['bins']) == 9 and np.allclose(h['bins'], want) else 1)
""")
S(id='c23-signless', property='C23', file='camera/routines.py',
  edits=[("idx = (np.abs(array - value)).argmin()", "idx = np.abs(np.abs(array) - np.abs(value)).argmin()")],
  needs='a setting requested with the other sign: a black offset below zero',
  what='a negative black offset picks the setting of the same magnitude instead of the nearest one',
  demo=IMP+"""
from emva1288.camera.camera import Camera
c = Camera(height=4, width=4, blackoffset_min=0, blackoffset_max=10, blackoffset_steps=11)
c.blackoffset = -7
sys.exit(0 if c.blackoffset == 0 else 1)
""")
S(id='c24-pattern-height', property='C24', file='camera/routines.py',
  edits=[("h_r = int(np.floor(height / arr.shape[0]) + 1)", "h_r = int(np.floor(height / arr.shape[1]) + 1)")],
  needs='a pattern with more columns than rows and a tall target',
  what='the tiled image is shorter than requested',
  demo=IMP+"""
from emva1288.camera.routines import get_tile
a = np.arange(8).reshape(2, 4)
t = get_tile(a, 9, 5)
want = np.array([[a[i % 2, j % 4] for j in range(5)] for i in range(9)])
sys.exit(0 if t.shape == (9, 5) and (t == want).all() else 1)
""")
S(id='c32-added', property='C32', file='camera/bad_images.py',
  edits=[("cam.DSNU[i // cam.width, i % cam.width] = bad_value", "cam.DSNU[i // cam.width, i % cam.width] += bad_value")],
  needs='a camera whose dark signal map is not zero everywhere',
  what='the bad value is added to the dark signal instead of replacing it',
  demo=IMP+"""
from emva1288.camera.camera import Camera
from emva1288.camera.bad_images import bad_pixel
c = Camera(height=4, width=6, u_esat=1000., dsnu=np.full((4, 6), 7.))
bad_pixel(c, 5, 0.5)
d = np.asarray(c.DSNU)
sys.exit(0 if (d == 500).sum() == 5 and (d == 7).sum() == 19 else 1)
""")
S(id='c19-rotated-mask', property='C19', file='process/routines.py',
  edits=[("        img = img.transpose()", "        img = np.asarray(img).T")],
  needs='the spectrum along the columns of a masked image',
  what='the mask is lost when the image is rotated: masked pixels enter the spectrum',
  demo=IMP+"""
from emva1288.process.routines import FFT1288
a = np.ma.masked_array([[1, 2, 3, 9], [4, 900, 6, 3], [7, 8, 5, 1], [2, 2, 4, 8]], mask=np.zeros((4, 4), bool))
a[1, 1] = np.ma.masked
r = FFT1288(a, rotate=True)
z = np.array([[1, 4, 7], [2, 8, 2], [3, 6, 5], [9, 3, 1]], float)
z -= z.mean()
want = (abs(np.fft.fft(z, axis=1)) ** 2 / 3).mean(0)[:2]
sys.exit(0 if len(r) == 2 and np.allclose(r, want) else 1)
""")
