SEEDS = []


def S(**k):
    SEEDS.append(k)


IMP = "import numpy as np, sys, os, tempfile\n"
PARSE = IMP + """
from emva1288.process.parser import ParseEmvaDescriptorFile as P
def parse(text):
    d = tempfile.mkdtemp()
    f = os.path.join(d, 'd.txt')
    open(f, 'w').write(text)
    try:
        return P(f, path='/p').images
    finally:
        os.remove(f)
        os.rmdir(d)
"""
S(id='c01-hash-name', property='C01', file='process/parser.py',
  edits=[("self._lines = [x.strip() for x in f.readlines() if x.strip() and\n                           not x.strip().startswith('#')]",
          "self._lines = [x.split('#')[0].strip() for x in f.readlines()\n                           if x.split('#')[0].strip()]")],
  needs='an image file name containing a # character',
  what='the path of the image is cut at the #',
  demo=PARSE+"""
r = parse('n 8 4 4\\nd 10\\ni dark#1.tif\\ni dark#2.tif\\n')
sys.exit(0 if r['temporal'] == {10.0: {0.0: ['/p/dark#1.tif', '/p/dark#2.tif']}} else 1)
""")
S(id='c01-even-temporal', property='C01', file='process/parser.py',
  edits=[("        if L == 2:", "        if L % 2 == 0 and L < 5:")],
  needs='a block of exactly four images',
  what='a block of four images is filed as temporal data',
  demo=PARSE+"""
r = parse('n 8 4 4\\nd 10\\ni a\\ni b\\ni c\\ni d\\n')
sys.exit(0 if len(r['spatial']) == 1 and not r['temporal'] else 1)
""")
S(id='c02-dark-again', property='C02', file='process/parser.py',
  edits=[("        if photons in self.images[kind][exposure]:", "        if photons and photons in self.images[kind][exposure]:")],
  needs='two dark blocks of the same kind at one exposure time',
  what='the second dark block silently replaces the first',
  demo=PARSE+"""
try:
    parse('n 8 4 4\\nd 10\\ni a\\ni b\\nd 10\\ni c\\ni d\\n')
    sys.exit(1)
except SyntaxError:
    sys.exit(0)
""")
S(id='c04-dark-first', property='C04', file='process/loader.py',
  edits=[("                if 0.0 not in photon_counts:", "                if min(photon_counts, default=0.0) > 0.0 and kind == 'temporal':")],
  needs='a spatial exposure without a dark block',
  what='a spatial exposure without dark images is accepted',
  demo=IMP+"""
from emva1288.process.loader import LoadImageData as L
d = tempfile.mkdtemp()
for n in 'abcdef':
    open(os.path.join(d, n), 'w').write(n)
f = lambda p: np.full((2, 3), ord(os.path.basename(p)[0]), dtype='uint16')
ok = 1
try:
    L({'temporal': {1.0: {0.0: ['a', 'b'], 5.0: ['c', 'd']}}, 'spatial': {1.0: {3.0: ['a', 'b', 'c'], 5.0: ['d', 'e', 'f']}}}, path=d, fload=f)
except ValueError:
    ok = 0
for n in 'abcdef':
    os.remove(os.path.join(d, n))
os.rmdir(d)
sys.exit(ok)
""")
S(id='c04-load-cache', property='C04', file='process/loader.py',
  edits=[("        imgs = []\n        # Iterate over all images\n        for fname in fnames:\n",
          "        imgs = []\n        # Iterate over all images\n        for fname in sorted(set(fnames)):\n")],
  needs='a measurement point that lists one file twice',
  what='an image listed twice is only counted once',
  demo=IMP+"""
from emva1288.process.loader import LoadImageData as L
d = tempfile.mkdtemp()
for n in 'abcdef':
    open(os.path.join(d, n), 'w').write(n)
f = lambda p: np.full((2, 3), ord(os.path.basename(p)[0]), dtype='uint16')
r = L({'temporal': {1.0: {0.0: ['a', 'b'], 5.0: ['c', 'd']}}, 'spatial': {1.0: {0.0: ['a', 'b', 'a'], 5.0: ['d', 'e', 'f']}}}, path=d, fload=f)
for n in 'abcdef':
    os.remove(os.path.join(d, n))
os.rmdir(d)
x = r.data['spatial'][1.0][0.0]
sys.exit(0 if x['L'] == 3 and (x['sum'] == 97 * 2 + 98).all() else 1)
""")
S(id='c20-compress-inplace', property='C20', file='process/routines.py',
  edits=[("    img = img.copy()\n    # use the same ndarray to save memory\n    compressed = np.ma.getdata(img)",
          "    # use the same ndarray to save memory\n    compressed = np.ma.getdata(img).view()", 'last')],
  needs='a spectrogram of a masked image',
  what='compressing the lines overwrites the pixels of the image of the results object',
  demo=IMP+"""
from emva1288.process.routines import FFT1288
a = np.ma.masked_array([[900, 2, 3, 9], [4, 1, 6, 3], [7, 8, 5, 1]], mask=np.zeros((3, 4), bool))
a[0, 0] = np.ma.masked
d = np.ma.getdata(a).copy()
FFT1288(a)
sys.exit(0 if (np.ma.getdata(a) == d).all() else 1)
""")
S(id='c21-freezing', property='C21', file='camera/camera.py',
  edits=[("        if temperature is None:\n            temperature = self.environment['temperature']",
          "        temperature = temperature or self.environment['temperature']")],
  needs='an image grabbed at exactly 0 degrees',
  what='the temperature given is ignored when it is 0',
  demo=IMP+"""
from emva1288.camera.camera import Camera
c = Camera(height=20, width=20, dark_current_ref=1e6, exposure=1e9, temperature=40, temperature_ref=20,
           temperature_doubling=8, u_esat=1e9, bit_depth=16, K=0.01, blackoffset=0, seed=1)
# thermal electrons at 0 degrees: 1e6 / 2 ** 2.5
m = c.grab(0, temperature=0).mean()
sys.exit(0 if abs(m / c.K - 1e6 / 2 ** 2.5) < 2e4 else 1)
""")
S(id='c21-deep-type', property='C21', file='camera/camera.py',
  edits=[("        elif bit_depth <= 16:\n            self._img_type = np.uint16", "        elif bit_depth <= 8 * np.dtype(np.uint16).itemsize + 2:\n            self._img_type = np.uint16")],
  needs='a camera of 17 or 18 bits',
  what='images of 17 and 18 bit cameras are stored in a 16 bit type',
  demo=IMP+"""
from emva1288.camera.camera import Camera
c = Camera(height=3, width=3, bit_depth=17)
sys.exit(0 if c.grab(0).dtype.itemsize * 8 >= 17 else 1)
""")
S(id='c22-portrait', property='C22', file='camera/camera.py',
  edits=[("        up = np.zeros((self.height, self.width, len(self._qe.w)))", "        up = np.zeros((self.width, self.height, len(self._qe.w)))")],
  needs='a camera that is not square',
  what='the radiance image for a target has rows and columns swapped',
  demo=IMP+"""
from emva1288.camera.camera import Camera
c = Camera(height=3, width=5, K=0.01, u_esat=1e9, bit_depth=16)
L = c.get_radiance_for(mean=20000)
try:
    e = c._u_e(L) + c._u_therm()
except ValueError:
    sys.exit(1)
sys.exit(0)
""")
S(id='c22-zero-exposure', property='C22', file='camera/camera.py',
  edits=[("        if exposure is None:\n            exposure = self.exposure\n        if f_number is None:", "        exposure = exposure or self.exposure\n        if f_number is None:")],
  needs='photons asked for an exposure of exactly 0',
  what='a zero exposure gives the photons of the exposure of the camera',
  demo=IMP+"""
from emva1288.camera.camera import Camera
c = Camera(height=3, width=3, exposure=1e6)
sys.exit(0 if np.all(c.get_photons(1e-6, exposure=0) == 0) else 1)
""")
