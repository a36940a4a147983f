From 854426f9c36e1f718cecef6080b7f6eefb415e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:01 +0000
Subject: [PATCH 01/17] fix: round_significant used np.int, removed from numpy,
 so compare_xml reported FAIL for every entry

---
 src/emva1288/process/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 8464780..246c055 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -512,7 +512,7 @@ def round_significant(v, sig=SIGNIFICANT_DIGITS):
     '''
     if v == 0.0:
         return 0.0
-    return round(v, sig - np.int(np.floor(np.log10(np.abs(v)))) - 1)
+    return round(v, sig - int(np.floor(np.log10(np.abs(v)))) - 1)
 
 
 round_array = np.vectorize(round_significant)
-- 
2.43.0


From 052b57003c06f517962dbe4500ee806c8537825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:01 +0000
Subject: [PATCH 02/17] fix: xml_to_dict could not read XML text (lxml
 ElementTree has no fromstring)

---
 src/emva1288/process/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 246c055..ac653fb 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -462,7 +462,7 @@ def xml_to_dict(xml):
         if os.path.isfile(xml):
             tree = etree.parse(xml)
         else:
-            tree = etree.ElementTree.fromstring(xml)
+            tree = etree.ElementTree(etree.fromstring(xml))
     except:
         print('Problems loading XML')
         return None
-- 
2.43.0


From 84ab278303771702d57194b2b637fe0899d7e4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 03/17] fix: saturation index wrapped around to the next point
 when testing the first one

---
 src/emva1288/process/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index 051689f..33c46bc 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -103,7 +103,7 @@ class Results1288(object):
         for i in range(len(s2_y) - 1, -1, -1):
             # Check that is not a local max
             if (s2_y[i] >= max_) or \
-               (s2_y[abs(i - 1)] >= max_):
+               (i > 0 and s2_y[i - 1] >= max_):
                 max_ = s2_y[i]
                 max_i = i
             elif (s2_y[i] < max_) and \
-- 
2.43.0


From 294725022ad9a291435408aeeea86cc12aa5284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 04/17] fix: Histogram1288 counted the masked pixels of masked
 images

---
 src/emva1288/process/routines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index ac653fb..b33e9ac 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -250,7 +250,8 @@ def GetFrecs(fft):
 
 
 def Histogram1288(img, Qmax):
-    y = np.ravel(img)
+    # masked pixels are not part of the histogram
+    y = np.ma.compressed(img)
 
     ymin = np.min(y)
     ymax = np.max(y)
-- 
2.43.0


From 17e608f0e676e1a7aa9c55b4d65c0e31318ba980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 05/17] fix: accumulated histograms are percentages of the
 pixels that were counted

---
 src/emva1288/process/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index 33c46bc..e6f54fe 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -1164,7 +1164,7 @@ class Results1288(object):
         # Perform the cumulative summation
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
         # we want it as percentage of pixels
-        h['values'] = 100 * h['values'] / y.size
+        h['values'] = 100 * h['values'] / np.ma.count(y)
 
         return h
 
@@ -1219,7 +1219,7 @@ class Results1288(object):
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
 
         # we want it as percentage of pixels
-        h['values'] = 100 * h['values'] / y.size
+        h['values'] = 100 * h['values'] / np.ma.count(y)
 
         return h
 
-- 
2.43.0


From ad6f178b92d7668bea6c58466bb7af23062d89db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 06/17] fix: Qe raised TypeError instead of ValueError for
 mismatching dimensions

---
 src/emva1288/camera/routines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index 5d6d166..bd09c57 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -230,8 +230,8 @@ class Qe(object):
 
         if self._qe.shape != (self._height, self._width, len(self._w)):
             raise ValueError('qe dimensions mismatch %s != %s' %
-                             self._qe.shape,
-                             (self._height, self._width, len(self._w)))
+                             (self._qe.shape,
+                              (self._height, self._width, len(self._w))))
 
         if filter is not None:
             self._qe *= filter
-- 
2.43.0


From bf8a07037bed11ee4706e6fbf5b0ab6989c761f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 07/17] fix: bad_pixel could draw the same pixel more than once

---
 src/emva1288/camera/bad_images.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/bad_images.py b/src/emva1288/camera/bad_images.py
index 0249389..acada45 100644
--- a/src/emva1288/camera/bad_images.py
+++ b/src/emva1288/camera/bad_images.py
@@ -24,7 +24,8 @@ def bad_pixel(cam, num_bad_pixel, bad_value=1):
     pixel_num = cam.height * cam.width
     # Select the number of bad pixel in a 1D with number
     # for they futur position.
-    bad_pixel_position = np.random.choice(pixel_num, num_bad_pixel)
+    bad_pixel_position = np.random.choice(pixel_num, num_bad_pixel,
+                                          replace=False)
     # change the position in 1D to 2D.
     for i in bad_pixel_position:
         # Change the DSNU of the camera with the bad values
-- 
2.43.0


From 7f91e62afaf9178771d3edfcb44a9e4ec07648d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:11 +0000
Subject: [PATCH 08/17] fix: get_radiance_for took the thermal electrons of the
 camera's exposure, not of the given one

---
 src/emva1288/camera/camera.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/camera/camera.py b/src/emva1288/camera/camera.py
index 5dd0bc5..bd2cdac 100644
--- a/src/emva1288/camera/camera.py
+++ b/src/emva1288/camera/camera.py
@@ -346,11 +346,13 @@ class Camera(object):
         u_e *= self._prnu
         return u_e
 
-    def _u_therm(self, temperature=None):
+    def _u_therm(self, temperature=None, exposure=None):
         """
         Mean number of electrons due to temperature.
         """
-        u_d = self._u_i(temperature=temperature) * self.exposure / (10 ** 9)
+        if exposure is None:
+            exposure = self.exposure
+        u_d = self._u_i(temperature=temperature) * exposure / (10 ** 9)
         return u_d
 
     def _u_i(self, temperature=None):
@@ -390,7 +392,7 @@ class Camera(object):
             mean = self.img_max
         if not exposure:
             exposure = self.exposure
-        ud = self._u_therm()
+        ud = self._u_therm(exposure=exposure)
         ue = ((mean / self.K) - ud)/len(self._qe.w)
         ue *= np.ones(len(self._qe.w))
         up = np.zeros((self.height, self.width, len(self._qe.w)))
-- 
2.43.0


From 74d9ed4183829dad8fd6beea6ed61a14615e342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:11 +0000
Subject: [PATCH 09/17] fix: Plotting1288 only plotted the last of its tests

---
 src/emva1288/process/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 3ab6bb9..5344324 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -848,7 +848,7 @@ class Plotting1288(object):
         for test in tests:
             if not getattr(test, 'id', False):
                 test.id = id(test)
-        self.tests.append(test)
+            self.tests.append(test)
 
     def plot(self, *plots):
         """Plot EMVA1288 plots
-- 
2.43.0


From 64ef7f50ebbd828e11bb52c532af9f150d218856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:11 +0000
Subject: [PATCH 10/17] fix: dark plots averaged the dark sum image over the
 number of bright images

---
 src/emva1288/process/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 5344324..cbbc455 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -416,7 +416,7 @@ class PlotHorizontalSpectrogramDSNU(Emva1288Plot):
         ax = self.ax
 
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
-                                       n=test.spatial['L'])
+                                       n=test.spatial['L_dark'])
         ax.plot(routines.GetFrecs(spectrogram),
                 np.sqrt(spectrogram),
                 label='Data',
@@ -485,7 +485,7 @@ class PlotVerticalSpectrogramDSNU(Emva1288Plot):
 
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
                                        rotate=True,
-                                       n=test.spatial['L'])
+                                       n=test.spatial['L_dark'])
         ax.plot(routines.GetFrecs(spectrogram),
                 np.sqrt(spectrogram),
                 label='Data',
@@ -693,7 +693,7 @@ class ProfileBase(Emva1288Plot):
 
         L = test.spatial['L']
         bimg = (test.spatial['sum'] - test.spatial['sum_dark']) / L
-        dimg = test.spatial['sum_dark'] / L
+        dimg = test.spatial['sum_dark'] / test.spatial['L_dark']
         profiles = self.get_profiles(bimg, dimg)
 
         # to keep the lines number for legend
-- 
2.43.0


From ad845513d2ecabf4fc286e2578f18c3c4d280675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:11 +0000
Subject: [PATCH 11/17] fix: PointsGenerator ignored the radiance limits it was
 given

---
 src/emva1288/camera/points_generator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/camera/points_generator.py b/src/emva1288/camera/points_generator.py
index 6cbe857..a936844 100644
--- a/src/emva1288/camera/points_generator.py
+++ b/src/emva1288/camera/points_generator.py
@@ -73,8 +73,10 @@ class PointsGenerator:
             self._cam.blackoffset = self._blackref
             m = self._cam.grab(0).mean()
             target = (self._cam.img_max - m) / self._steps + m
-            self._radiance_min = self._cam.get_radiance_for(mean=target)
-            self._radiance_max = self._cam.get_radiance_for()
+            if self._radiance_min is None:
+                self._radiance_min = self._cam.get_radiance_for(mean=target)
+            if self._radiance_max is None:
+                self._radiance_max = self._cam.get_radiance_for()
 
         # By default, an exposure time variation data points
         # If exposure fixed is given, it is photons variation
@@ -104,8 +106,8 @@ class PointsGenerator:
             # only one exposure time
             rad_i = np.ones((self._cam._height, self._cam._width,
                             len(self._cam.qe.w)))
-            factors = np.linspace(self._radiance_min.mean(),
-                                  self._radiance_max.mean(),
+            factors = np.linspace(np.mean(self._radiance_min),
+                                  np.mean(self._radiance_max),
                                   self._steps)
             radiances = [rad_i * factor for factor in factors]
             # round to only have one decimal
-- 
2.43.0


From dc1c58ca6988c2037161883d41897affed2a7359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:48 +0000
Subject: [PATCH 12/17] fix: Histogram1288 lost bins of narrow integer images
 to overflow

---
 src/emva1288/process/routines.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index b33e9ac..38c1cf5 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -253,8 +253,9 @@ def Histogram1288(img, Qmax):
     # masked pixels are not part of the histogram
     y = np.ma.compressed(img)
 
-    ymin = np.min(y)
-    ymax = np.max(y)
+    # python numbers, the bin limits may not fit in the type of the image
+    ymin = np.min(y).item()
+    ymax = np.max(y).item()
 
     # Because we are working with integers, minimum binwidth is 1
     W = 1
-- 
2.43.0


From 4aa523271fd1965932495976d702aed46803a10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 13/17] fix: xml_to_dict could not read empty arrays

---
 src/emva1288/process/routines.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 38c1cf5..83ad0ed 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -491,8 +491,10 @@ def xml_to_dict(xml):
     for section, method in d.items():
         for methodname, value in method.items():
             if 'data' in value:
+                # elements without content are read as None
+                value['data'] = value['data'] or {}
                 for data in value['data']:
-                    v = value['data'][data]
+                    v = value['data'][data] or ''
                     v = v.strip()
                     v = v.split()
                     d[section][methodname]['data'][data] = np.asarray(v, dtype=np.float64)
-- 
2.43.0


From 5d6ed625a0d1c41f9cd942f7a038228f5966edd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 14/17] fix: compare_xml reported arrays of different lengths
 as matching

---
 src/emva1288/process/routines.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 83ad0ed..589904e 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -519,7 +519,7 @@ def round_significant(v, sig=SIGNIFICANT_DIGITS):
     return round(v, sig - int(np.floor(np.log10(np.abs(v)))) - 1)
 
 
-round_array = np.vectorize(round_significant)
+round_array = np.vectorize(round_significant, otypes=[np.float64])
 
 
 def compare_xml(x1, x2, filename=None):
@@ -594,11 +594,12 @@ def compare_xml(x1, x2, filename=None):
                 if (set(k1) ^ set(k2)):
                     r = False
                 else:
+                    r = True
                     # loop throught the keys
                     for k in k1:
                         try:
-                            r = np.max(np.abs(round_array(a1[k]) -
-                                              round_array(a2[k]))) == 0.0
+                            r = np.array_equal(round_array(a1[k]),
+                                               round_array(a2[k]))
                         except:
                             r = False
 
-- 
2.43.0


From da8a0ca85095fdade947200d0b9ada36c5f49322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 15/17] fix: the report only recognized the np.nan object as a
 missing number

---
 src/emva1288/report/report.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index a196c0a..580f7d4 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -6,7 +6,6 @@ from collections import OrderedDict
 import posixpath
 from matplotlib.figure import Figure
 from matplotlib.backends.backend_pdf import FigureCanvas
-import numpy as np
 
 from emva1288.process import Results1288
 from emva1288.process.plotting import EVMA1288plots
@@ -238,16 +237,20 @@ class Report1288(object):
             comment_end_string='%#}',
             loader=jinja2.FileSystemLoader(dirname))
 
+        def ismissing(value):
+            # nan is the only value that differs from itself
+            return value is None or value != value
+
         def missingnumber(value, precision):
             # Filter for missing numbers
-            if value in (None, np.nan):
+            if ismissing(value):
                 return '-'
             t = '{:.%df}' % precision
             return t.format(value)
 
         def missingfilter(value, default='-'):
             # General filter for missing objects that are not numbers
-            if value in (None, np.nan):
+            if ismissing(value):
                 return default
             return value
 
-- 
2.43.0


From 3795a6685093caa70781d04a625f671b495c550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 16/17] fix: entries absent from the report's information were
 rendered as nothing, not as missing

---
 src/emva1288/report/report.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index 580f7d4..b9bf825 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -239,7 +239,8 @@ class Report1288(object):
 
         def ismissing(value):
             # nan is the only value that differs from itself
-            return value is None or value != value
+            return (value is None or isinstance(value, jinja2.Undefined) or
+                    value != value)
 
         def missingnumber(value, precision):
             # Filter for missing numbers
-- 
2.43.0


From 6173e9b9f8efbc22383fd8becc409bae14f24159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 17/17] fix: the histogram plots cut off the earlier tests when
 a lower one was added

---
 src/emva1288/process/plotting.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index cbbc455..57314c0 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -514,6 +514,10 @@ class PlotLogarithmicHistogramDSNU(Emva1288Plot):
     ylabel = 'Number of pixels'
     yscale = 'log'
 
+    def setup_figure(self):
+        super(PlotLogarithmicHistogramDSNU, self).setup_figure()
+        self.max_values = []
+
     def plot(self, test):
         ax = self.ax
 
@@ -529,7 +533,9 @@ class PlotLogarithmicHistogramDSNU(Emva1288Plot):
 
         self.set_legend(ax)
 
-        ax.axis(ymin=1.0, ymax=np.max(hist['values']) * 2)
+        # keep the histograms of all the tests in view
+        self.max_values.append(np.max(hist['values']))
+        ax.axis(ymin=1.0, ymax=max(self.max_values) * 2)
 
 
 class PlotLogarithmicHistogramPRNU(Emva1288Plot):
@@ -540,6 +546,10 @@ class PlotLogarithmicHistogramPRNU(Emva1288Plot):
     ylabel = 'Number of pixels'
     yscale = 'log'
 
+    def setup_figure(self):
+        super(PlotLogarithmicHistogramPRNU, self).setup_figure()
+        self.max_values = []
+
     def plot(self, test):
         ax = self.ax
         hist = test.histogram_PRNU
@@ -552,7 +562,9 @@ class PlotLogarithmicHistogramPRNU(Emva1288Plot):
                 label='Model')
 
         self.set_legend(ax)
-        ax.axis(ymin=0.5, ymax=np.max(hist['values']) * 2)
+        # keep the histograms of all the tests in view
+        self.max_values.append(np.max(hist['values']))
+        ax.axis(ymin=0.5, ymax=max(self.max_values) * 2)
 
 
 class PlotAccumulatedLogHistogramDSNU(Emva1288Plot):
-- 
2.43.0

