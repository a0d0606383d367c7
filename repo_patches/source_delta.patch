From 25d457eb804f2d8b4ea08def76319211b5cff6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:08 +0000
Subject: [PATCH 01/41] fix: import reducer/fitter plugin modules with
 importlib (loader.find_module is gone in Python 3.12)

---
 CHECLabPy/spectrum_fitters/__init__.py  | 7 +++++--
 CHECLabPy/waveform_reducers/__init__.py | 7 ++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/CHECLabPy/spectrum_fitters/__init__.py b/CHECLabPy/spectrum_fitters/__init__.py
index 575a152..58bf7c7 100644
--- a/CHECLabPy/spectrum_fitters/__init__.py
+++ b/CHECLabPy/spectrum_fitters/__init__.py
@@ -6,9 +6,12 @@ __all__ = []
 
 import pkgutil
 import inspect
+from importlib import import_module
 
-for loader, name, is_pkg in pkgutil.walk_packages(__path__):
-    module = loader.find_module(name).load_module(name)
+for loader, name, is_pkg in pkgutil.iter_modules(__path__):
+    if is_pkg:
+        continue
+    module = import_module(f"{__name__}.{name}")
 
     for name, value in inspect.getmembers(module):
         if name.startswith('__'):
diff --git a/CHECLabPy/waveform_reducers/__init__.py b/CHECLabPy/waveform_reducers/__init__.py
index 4c780a9..3e25ab0 100644
--- a/CHECLabPy/waveform_reducers/__init__.py
+++ b/CHECLabPy/waveform_reducers/__init__.py
@@ -13,12 +13,13 @@ __all__ = []
 
 import pkgutil
 import inspect
+from importlib import import_module
 
-for loader, name, is_pkg in pkgutil.walk_packages(__path__):
-    module = loader.find_module(name).load_module(name)
+for loader, name, is_pkg in pkgutil.iter_modules(__path__):
+    module = import_module(f"{__name__}.{name}")
 
     for key, value in inspect.getmembers(module):
-        if name.startswith('__'):
+        if key.startswith('__'):
             continue
 
         globals()[key] = value
-- 
2.43.0


From 843c3581b5b8941008c9a729f6bededaf76ab4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:08 +0000
Subject: [PATCH 02/41] fix: use the builtin bool instead of the removed
 np.bool in calib

---
 CHECLabPy/calib/amplitude_matcher.py | 2 +-
 CHECLabPy/calib/pixel_masks.py       | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index b291737..7ad6476 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -50,7 +50,7 @@ class AmplitudeMatcher:
         self.starting_dacs = starting_dacs.ravel()
 
         if bad_hv is None:
-            self.sp_mask = np.zeros(n_superpixels, dtype=np.bool)
+            self.sp_mask = np.zeros(n_superpixels, dtype=bool)
         else:
             if bad_hv.size == n_pixels:
                 bad_hv.reshape((n_superpixels, 4)).all(1)
diff --git a/CHECLabPy/calib/pixel_masks.py b/CHECLabPy/calib/pixel_masks.py
index eab3dfc..71db956 100644
--- a/CHECLabPy/calib/pixel_masks.py
+++ b/CHECLabPy/calib/pixel_masks.py
@@ -28,9 +28,9 @@ class PixelMasks:
         path : str
             OPTIONAL specify a particular pixel mask file to load
         """
-        self.dead = np.zeros(N_PIXELS, dtype=np.bool)
-        self.low = np.zeros(N_PIXELS, dtype=np.bool)
-        self.bad_hv = np.zeros(N_SUPERPIXELS, dtype=np.bool)
+        self.dead = np.zeros(N_PIXELS, dtype=bool)
+        self.low = np.zeros(N_PIXELS, dtype=bool)
+        self.bad_hv = np.zeros(N_SUPERPIXELS, dtype=bool)
         self._load_file(path=path, merge=False)
 
     def _load_file(self, path=None, merge=False):
-- 
2.43.0


From 40f0ffba6aa80e15d530ff4e4a0968d8308402e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:08 +0000
Subject: [PATCH 03/41] fix: AmplitudeMatcher uses the superpixel reduction of
 a pixel-sized bad_hv mask

---
 CHECLabPy/calib/amplitude_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index 7ad6476..d1fb7d9 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -53,7 +53,7 @@ class AmplitudeMatcher:
             self.sp_mask = np.zeros(n_superpixels, dtype=bool)
         else:
             if bad_hv.size == n_pixels:
-                bad_hv.reshape((n_superpixels, 4)).all(1)
+                bad_hv = bad_hv.reshape((n_superpixels, 4)).all(1)
             self.sp_mask = bad_hv.ravel()
 
         self.illumination_profile = illumination_profile
-- 
2.43.0


From e39500a5801b43971f2397b32daaead5a0b7cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:08 +0000
Subject: [PATCH 04/41] fix: AmplitudeMatcher.process returns the final DACs in
 the documented (32, 16) shape

---
 CHECLabPy/calib/amplitude_matcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index d1fb7d9..f3161c3 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -175,7 +175,8 @@ class AmplitudeMatcher:
             self.global_stage += 1
 
         if self.global_stage == GLOBALSTAGE.FINISH:
-            return self.current_dac, average_amplitude_pix, True
+            next_dac = self.current_dac.reshape((32, 16))
+            return next_dac, average_amplitude_pix, True
 
         next_dac = self._get_next_dac(distance, direction)
         finished = (self.stage == STAGE.FINISH).all()
-- 
2.43.0


From 23e61605a0089faf889e0ed940f011fb24bfd655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:20 +0000
Subject: [PATCH 05/41] fix: DL1 metadata uses pd.Timestamp.now() (pd.datetime
 was removed from pandas)

---
 CHECLabPy/scripts/extract_dl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index c5b665b..132641f 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -138,7 +138,7 @@ class DL1Extractor:
             source=self.source,
             run_id=self.reader.run_id,
             is_mc=self.reader.is_mc,
-            date_generated=pd.datetime.now(),
+            date_generated=pd.Timestamp.now(),
             input_path=self.reader.path,
             n_modules=self.reader.n_modules,
             n_pixels=self.reader.n_pixels,
-- 
2.43.0


From 0c57b90a59ab0233bf66f2010f9f13d77349174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:20 +0000
Subject: [PATCH 06/41] fix: use the builtin int instead of the removed np.int
 in SimtelReader

---
 CHECLabPy/core/io/simtel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/core/io/simtel.py b/CHECLabPy/core/io/simtel.py
index fdc695b..dd8e3dd 100644
--- a/CHECLabPy/core/io/simtel.py
+++ b/CHECLabPy/core/io/simtel.py
@@ -68,8 +68,8 @@ class SimtelReader(WaveformReader):
         pix_x = engineering_geom.pix_x.value
         pix_y = engineering_geom.pix_y.value
         row, col = get_row_column(pix_x, pix_y)
-        camera_2d = np.zeros((n_rows, n_columns), dtype=np.int)
-        camera_2d[row, col] = np.arange(self.n_pixels, dtype=np.int)
+        camera_2d = np.zeros((n_rows, n_columns), dtype=int)
+        camera_2d[row, col] = np.arange(self.n_pixels, dtype=int)
         self.pixel_order = camera_2d[self.mapping['row'], self.mapping['col']]
 
         self.reference_pulse_path = self._camera_config.GetReferencePulsePath()
-- 
2.43.0


From ae4906a655fdc83685f728f63b1d76730ec63346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:20 +0000
Subject: [PATCH 07/41] fix: loaded configuration and updated initial values
 take effect in the next SpectrumFitter fit

---
 CHECLabPy/core/spectrum_fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CHECLabPy/core/spectrum_fitter.py b/CHECLabPy/core/spectrum_fitter.py
index 746c03f..9b5be3b 100644
--- a/CHECLabPy/core/spectrum_fitter.py
+++ b/CHECLabPy/core/spectrum_fitter.py
@@ -170,6 +170,7 @@ class SpectrumFitter:
                 d.pop('fixed')
             if d:
                 print(f"WARNING: Unused SpectrumFitter config parameters:\n{d}")
+            self.parameters._prepare_parameters()
 
     def save_config(self, path):
         """
@@ -252,6 +253,7 @@ class SpectrumFitter:
                 param.initial = self.fit_result_values[f"{param.name}{illumination}"]
             else:
                 param.initial = self.fit_result_values[param.name]
+        self.parameters._prepare_parameters()
 
     def apply(self, *charges):
         """
-- 
2.43.0


From 46750afcdfac0817e27a783d9da379d38f78ee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 08/41] fix: HDF5Appender keeps n_bytes/total_bytes in step
 with the tables after appending or overwriting

---
 CHECLabPy/core/io/hdf5_appender.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/core/io/hdf5_appender.py b/CHECLabPy/core/io/hdf5_appender.py
index 78d7268..58340c7 100644
--- a/CHECLabPy/core/io/hdf5_appender.py
+++ b/CHECLabPy/core/io/hdf5_appender.py
@@ -35,6 +35,8 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
         self.n_bytes = defaultdict(int)
 
         self._generate_contents_list()
+        for key in self.dataframe_keys:
+            self.n_bytes[key] = self.get_n_bytes(key)
 
         if parse(self.version).release[0] < parse(__version__).release[0]:
             warnings.warn(
@@ -72,13 +74,11 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
         the metadata. This is method is automatically called when HDF5Writer
         is used in a context manager (i.e. `with HDF5Writer(path) as writer:`)
         """
-        total_bytes = self.get_metadata()['total_bytes']
         for key in self.keys:
             self._append_to_store(key)
             self.add_metadata(key=key, n_bytes=self.n_bytes[key])
-            total_bytes += self.n_bytes[key]
         self.add_metadata(
-            total_bytes=total_bytes,
+            total_bytes=sum(self.n_bytes.values()),
             version=__version__,
         )
         self._save_metadata()
-- 
2.43.0


From 7bf1bdd70b48cf6f88a132f01e296505201a89cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 09/41] fix: HDF5Reader opens files where a key only has
 metadata under a custom name

---
 CHECLabPy/core/io/hdf5_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/core/io/hdf5_reader.py b/CHECLabPy/core/io/hdf5_reader.py
index 57ccb84..facacb9 100644
--- a/CHECLabPy/core/io/hdf5_reader.py
+++ b/CHECLabPy/core/io/hdf5_reader.py
@@ -48,7 +48,7 @@ class HDF5Reader:
             key = key[1:]
             try:
                 n_bytes = self.store.get_storer(key).attrs.metadata['n_bytes']
-            except KeyError:
+            except (KeyError, AttributeError):
                 n_bytes = 0
             if key in ['mapping']:
                 continue
-- 
2.43.0


From e47e3644ea9d2021ef16e72601253069b1e1203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 10/41] fix: HDF5Writer.write overwrites rows still buffered
 for the same table

---
 CHECLabPy/core/io/hdf5_writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CHECLabPy/core/io/hdf5_writer.py b/CHECLabPy/core/io/hdf5_writer.py
index 2383f28..113e7b8 100644
--- a/CHECLabPy/core/io/hdf5_writer.py
+++ b/CHECLabPy/core/io/hdf5_writer.py
@@ -125,6 +125,8 @@ class HDF5Writer:
         """
         for key, value in kwargs.items():
             self.keys.add(key)
+            self.df_list[key] = []  # Overwrite also the rows not yet stored
+            self.df_list_n_bytes[key] = 0
             self.store[key] = value
             self.n_bytes[key] = value.memory_usage(index=True, deep=True).sum()
 
-- 
2.43.0


From cfe00ea619d9701a996728c6613cae17664d3014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:45 +0000
Subject: [PATCH 11/41] fix: HDF5Appender can append to a key that so far only
 holds metadata

---
 CHECLabPy/core/io/hdf5_appender.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/CHECLabPy/core/io/hdf5_appender.py b/CHECLabPy/core/io/hdf5_appender.py
index 58340c7..08b300b 100644
--- a/CHECLabPy/core/io/hdf5_appender.py
+++ b/CHECLabPy/core/io/hdf5_appender.py
@@ -55,6 +55,16 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
     def __exit__(self, exc_type, exc_val, exc_tb):
         self.finish()
 
+    def _append_to_store(self, key, expectedrows=None):
+        if self.df_list[key] and not self.n_bytes[key] and key in self.store:
+            # Only an empty DataFrame exists, as a placeholder for metadata.
+            # It cannot be appended to, so replace it and keep the metadata.
+            for name in self.metadata_keys.get(key, []):
+                old_d = self.get_metadata(key, name)
+                self.metadata[key][name] = {**old_d, **self.metadata[key][name]}
+            self.store.remove(key)
+        super()._append_to_store(key, expectedrows)
+
     def _save_metadata(self):
         print("Saving metadata to HDF5 file")
         for key, submeta in self.metadata.items():
-- 
2.43.0


From 62db385fdfd6acd2b94d75a6e894d8e6a2d26504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 12/41] fix: obtain_dead_pixel_list_r1 reads the event index
 from the waveforms

---
 CHECLabPy/utils/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/utils/waveform.py b/CHECLabPy/utils/waveform.py
index 72bf977..9baae33 100644
--- a/CHECLabPy/utils/waveform.py
+++ b/CHECLabPy/utils/waveform.py
@@ -169,7 +169,7 @@ def obtain_dead_pixel_list_r1(source, threshold_percent=0.1, max_events=100):
     n_samples = source.n_samples
     array = np.zeros((n_events, n_pixels, n_samples))
     for waveforms in source:
-        iev = source.index
+        iev = waveforms.iev
         if iev >= n_events:
             break
         array[iev] = waveforms
-- 
2.43.0


From b9ca6b3dd6acf417d4dc5c4f719b1399b04f45d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 13/41] fix: SpectrumFitPlotter obtains line colours without
 the removed prop_cycler

---
 CHECLabPy/plotting/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/plotting/spe.py b/CHECLabPy/plotting/spe.py
index ffe3146..17bb1b4 100644
--- a/CHECLabPy/plotting/spe.py
+++ b/CHECLabPy/plotting/spe.py
@@ -14,7 +14,7 @@ class SpectrumFitPlotter(Plotter):
     def plot(self, hist_x, hist_y, hist_edges, fit_x, fit_y, values, errors, initial):
         for i in range(self.n_illuminations):
             label = f"λ_{i} = {values[f'lambda_{i}']:.3f} ± {errors[f'lambda_{i}']:.3f} p.e."
-            color = next(self.ax._get_lines.prop_cycler)['color']
+            color = self.ax._get_lines.get_next_color()
             self.ax.hist(
                 hist_x,  weights=hist_y[i], bins=hist_edges,
                 histtype='step', color=color
-- 
2.43.0


From 41235d6c798e68bcfa37d52906fea3c19d39fd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 14/41] fix: annotate_tm_edge_label uses .loc instead of the
 removed .ix

---
 CHECLabPy/plotting/camera.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CHECLabPy/plotting/camera.py b/CHECLabPy/plotting/camera.py
index 2a14f7a..b6f8d9d 100644
--- a/CHECLabPy/plotting/camera.py
+++ b/CHECLabPy/plotting/camera.py
@@ -227,8 +227,8 @@ class CameraImage(Plotter):
             kw = dict(fontsize=6, color='black', ha='center')
             m = self._mapping
             pix_size = self._mapping.metadata['size']
-            f_tm_top = lambda g: m.ix[m.ix[g.index]['row'].idxmax(), 'slot']
-            f_tm_bottom = lambda g: m.ix[m.ix[g.index]['row'].idxmin(), 'slot']
+            f_tm_top = lambda g: m.loc[m.loc[g.index]['row'].idxmax(), 'slot']
+            f_tm_bottom = lambda g: m.loc[m.loc[g.index]['row'].idxmin(), 'slot']
             tm_top = np.unique(m.groupby('col').agg(f_tm_top)['slot'])
             tm_bottom = np.unique(m.groupby('col').agg(f_tm_bottom)['slot'])
             for tm in tm_top:
@@ -493,8 +493,8 @@ class CameraImageImshow(Plotter):
             kw = dict(fontsize=6, color='black', ha='center')
             m = self._mapping
             n_rows = m.metadata['n_rows']
-            f_tm_top = lambda g: m.ix[m.ix[g.index]['row'].idxmax(), 'slot']
-            f_tm_bottom = lambda g: m.ix[m.ix[g.index]['row'].idxmin(), 'slot']
+            f_tm_top = lambda g: m.loc[m.loc[g.index]['row'].idxmax(), 'slot']
+            f_tm_bottom = lambda g: m.loc[m.loc[g.index]['row'].idxmin(), 'slot']
             tm_top = np.unique(m.groupby('col').agg(f_tm_top)['slot'])
             tm_bottom = np.unique(m.groupby('col').agg(f_tm_bottom)['slot'])
             for tm in tm_top:
-- 
2.43.0


From 4479ae8c53d63cf9eae66028f943d14c75b77f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 15/41] fix: highlight_pixels works for integer images and
 before an image is set

---
 CHECLabPy/plotting/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/plotting/camera.py b/CHECLabPy/plotting/camera.py
index b6f8d9d..3f64016 100644
--- a/CHECLabPy/plotting/camera.py
+++ b/CHECLabPy/plotting/camera.py
@@ -209,7 +209,7 @@ class CameraImage(Plotter):
             The transparency
         """
 
-        lw_array = np.zeros_like(self.image)
+        lw_array = np.zeros(self.n_pixels)
         lw_array[pixels] = linewidth
         pixel_highlighting = copy(self.pixels)
         pixel_highlighting.set_facecolor('none')
-- 
2.43.0


From 4593601eb35b40a5b8a19070571f01c5560fa863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 16/41] fix: apply_t_cor no longer divides by zero for
 whole-sample corrections

---
 CHECLabPy/calib/time_calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/calib/time_calibrator.py b/CHECLabPy/calib/time_calibrator.py
index 63c4314..40ed92e 100644
--- a/CHECLabPy/calib/time_calibrator.py
+++ b/CHECLabPy/calib/time_calibrator.py
@@ -1,7 +1,7 @@
 import pandas as pd
 from CHECLabPy.calib import get_calib_data
 from numba import njit, prange, float64, float32
-from math import floor, ceil
+from math import floor
 
 
 @njit([
@@ -16,7 +16,7 @@ def apply_t_cor(waveforms, t_cor):
         for isample in prange(n_samples):
             x = isample - correction
             x1 = floor(x)
-            x2 = ceil(x)
+            x2 = x1 + 1
             if x1 < 0:
                 x1 = 0
                 x2 = 1
-- 
2.43.0


From 4ac4be2a7f068e44c86d8b1678bb3859fffa6677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 17/41] fix: extract_pulse_time does not read outside the
 waveform for a peak at its edge

---
 CHECLabPy/waveform_reducers/cross_correlation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CHECLabPy/waveform_reducers/cross_correlation.py b/CHECLabPy/waveform_reducers/cross_correlation.py
index 94078d9..691f734 100644
--- a/CHECLabPy/waveform_reducers/cross_correlation.py
+++ b/CHECLabPy/waveform_reducers/cross_correlation.py
@@ -16,6 +16,12 @@ from numba import guvectorize, float64, float32, int64
 )
 def extract_pulse_time(waveforms, peak_index, ret):
     n_samples = waveforms.size
+
+    # No neighbouring samples to interpolate with at the waveform edges
+    if not 0 < peak_index < n_samples - 1:
+        ret[0] = peak_index
+        return
+
     y0 = waveforms[peak_index - 1]
     y1 = waveforms[peak_index]
     y2 = waveforms[peak_index + 1]
-- 
2.43.0


From 7a2f4757761c8a13e1826db5fd77d23e76fefb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 18/41] fix: get_tc_mapping_from_clp_mapping reads the mapping
 metadata as the dict it is

---
 CHECLabPy/utils/mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/utils/mapping.py b/CHECLabPy/utils/mapping.py
index a0dfd14..9ca40f3 100644
--- a/CHECLabPy/utils/mapping.py
+++ b/CHECLabPy/utils/mapping.py
@@ -70,8 +70,8 @@ def get_tc_mapping_from_clp_mapping(mapping):
 
     """
     from target_calib import Mapping
-    cfgfile = mapping.metadata.cfgfile
-    is_single_module = mapping.metadata.is_single_module
+    cfgfile = mapping.metadata['cfgfile']
+    is_single_module = mapping.metadata['is_single_module']
     return Mapping(cfgfile, is_single_module)
 
 
-- 
2.43.0


From 53a2951aaded53cbac7c266a866c2ef8f7985ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 19/41] fix: DL1Reader.tc_mapping uses the stored camera
 version

---
 CHECLabPy/core/io/dl1_reader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CHECLabPy/core/io/dl1_reader.py b/CHECLabPy/core/io/dl1_reader.py
index e7a68a7..34c3a66 100644
--- a/CHECLabPy/core/io/dl1_reader.py
+++ b/CHECLabPy/core/io/dl1_reader.py
@@ -89,8 +89,7 @@ class DL1Reader(HDF5Reader):
         Obtain the TargetCalib mapping class
         """
         from target_calib import CameraConfiguration
-        version = self.mapping.metadata.version
-        camera_config = CameraConfiguration(version)
+        camera_config = CameraConfiguration(self.camera_version)
         return camera_config.GetMapping(self.n_modules == 1)
 
     @property
-- 
2.43.0


From fae6f71ba1f6172a1cc6c13a5a462b2fa5d59ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 20/41] fix: BaselineSubtractor does not average in empty slots
 for files with fewer than n_base events

---
 CHECLabPy/utils/waveform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CHECLabPy/utils/waveform.py b/CHECLabPy/utils/waveform.py
index 9baae33..2eb3238 100644
--- a/CHECLabPy/utils/waveform.py
+++ b/CHECLabPy/utils/waveform.py
@@ -13,6 +13,7 @@ class BaselineSubtractor:
     """
     def __init__(self, source, n_base=50, n_base_samples=16):
         n_pixels = source.n_pixels
+        n_base = max(min(n_base, source.n_events), 1)
         self.n_base = n_base
         self.n_base_samples = n_base_samples
         self.iev = 0
-- 
2.43.0


From 7afb98d1527ae59b37cd47d982f9cc1703e215a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 21/41] fix: extract_spe stores the pixels in order, also when
 multiprocessing

---
 CHECLabPy/scripts/extract_spe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/scripts/extract_spe.py b/CHECLabPy/scripts/extract_spe.py
index efc908a..92dec9f 100644
--- a/CHECLabPy/scripts/extract_spe.py
+++ b/CHECLabPy/scripts/extract_spe.py
@@ -153,9 +153,9 @@ def main():
     df_values = pd.DataFrame(list(pixel_fitter.pixel_values.values()))
     df_errors = pd.DataFrame(list(pixel_fitter.pixel_errors.values()))
     df_arrays = pd.DataFrame(list(pixel_fitter.pixel_arrays.values()))
-    df_values = df_values.set_index('pixel')
-    df_errors = df_errors.set_index('pixel')
-    df_arrays = df_arrays.set_index('pixel')
+    df_values = df_values.set_index('pixel').sort_index()
+    df_errors = df_errors.set_index('pixel').sort_index()
+    df_arrays = df_arrays.set_index('pixel').sort_index()
 
     with HDF5Writer(output_path) as writer:
         with warnings.catch_warnings():
-- 
2.43.0


From 28becb78b453a093fb36ca801dea4c232340e4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 22/41] fix: extract_spe stores the number of pixels in the
 n_pixels metadata

---
 CHECLabPy/scripts/extract_spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/scripts/extract_spe.py b/CHECLabPy/scripts/extract_spe.py
index 92dec9f..fa08eff 100644
--- a/CHECLabPy/scripts/extract_spe.py
+++ b/CHECLabPy/scripts/extract_spe.py
@@ -170,7 +170,7 @@ def main():
             files=input_paths,
             fitter=fitter.__class__.__name__,
             n_illuminations=n_illuminations,
-            n_pixels=charges[0].shape,
+            n_pixels=charges[0].shape[1],
             initial=initial,
         )
 
-- 
2.43.0


From dfb4f321faa9064bbb2b43dafd0891718a3e15e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:40 +0000
Subject: [PATCH 23/41] fix: HDF5Appender.write keeps the metadata of the table
 it replaces

---
 CHECLabPy/core/io/hdf5_appender.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/core/io/hdf5_appender.py b/CHECLabPy/core/io/hdf5_appender.py
index 08b300b..204baf5 100644
--- a/CHECLabPy/core/io/hdf5_appender.py
+++ b/CHECLabPy/core/io/hdf5_appender.py
@@ -55,16 +55,31 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
     def __exit__(self, exc_type, exc_val, exc_tb):
         self.finish()
 
+    def _keep_metadata(self, key):
+        """
+        Carry over the metadata in the file for a table which is about to be
+        replaced, as the metadata in the file is replaced along with it
+        """
+        if key in self.store:
+            attrs = self.store.get_storer(key).attrs
+            for name in self.metadata_keys.get(key, []):
+                old_d = getattr(attrs, name, {})
+                new_d = self.metadata[key][name]
+                self.metadata[key][name] = {**old_d, **new_d}
+
     def _append_to_store(self, key, expectedrows=None):
         if self.df_list[key] and not self.n_bytes[key] and key in self.store:
             # Only an empty DataFrame exists, as a placeholder for metadata.
             # It cannot be appended to, so replace it and keep the metadata.
-            for name in self.metadata_keys.get(key, []):
-                old_d = self.get_metadata(key, name)
-                self.metadata[key][name] = {**old_d, **self.metadata[key][name]}
+            self._keep_metadata(key)
             self.store.remove(key)
         super()._append_to_store(key, expectedrows)
 
+    def write(self, **kwargs):
+        for key in kwargs:
+            self._keep_metadata(key)
+        super().write(**kwargs)
+
     def _save_metadata(self):
         print("Saving metadata to HDF5 file")
         for key, submeta in self.metadata.items():
-- 
2.43.0


From e8a2b08ed49040281b0c3236b1672e2feabcecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:09 +0000
Subject: [PATCH 24/41] fix: saturation_sum no longer takes the setting of the
 t_event column for a sample

---
 CHECLabPy/waveform_reducers/saturation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/waveform_reducers/saturation.py b/CHECLabPy/waveform_reducers/saturation.py
index 188413e..0e44b5e 100644
--- a/CHECLabPy/waveform_reducers/saturation.py
+++ b/CHECLabPy/waveform_reducers/saturation.py
@@ -18,8 +18,8 @@ class Saturation(WaveformReducer):
         Sum of the waveform samples from the start of the pulse to the end of
         the waveform.
         """
-        if "t_event" in self.kwargs:
-            t_event = self.kwargs['t_event']
+        if "t_extract" in self.kwargs:  # "t_event" is the name of a column
+            t_event = self.kwargs['t_extract']
         else:
             avg = np.mean(self.waveforms, axis=0)
             t_event = np.argmax(avg)
-- 
2.43.0


From 44819a49672a354af7d9ec6127b7b372f570d5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 25/41] fix: pulse width of a pulse extrapolated to the end
 does not read outside the waveform

---
 CHECLabPy/waveform_reducers/timing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/waveform_reducers/timing.py b/CHECLabPy/waveform_reducers/timing.py
index ec6019c..8f78f73 100644
--- a/CHECLabPy/waveform_reducers/timing.py
+++ b/CHECLabPy/waveform_reducers/timing.py
@@ -43,7 +43,7 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
         t_pulse = t + peakpos
         if not 0 <= t_pulse < n_samples:
             continue
-        i_pulse = int(np.round(t_pulse))
+        i_pulse = min(int(np.round(t_pulse)), n_samples - 1)
 
         ###############################
         # __Obtain FWHM and Rise Time__
-- 
2.43.0


From 6d083fca7c4a4b2b4f216323e1690620b916a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:12 +0000
Subject: [PATCH 26/41] fix: pulse width with a flat section exactly at the
 threshold does not divide by zero

---
 CHECLabPy/waveform_reducers/timing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CHECLabPy/waveform_reducers/timing.py b/CHECLabPy/waveform_reducers/timing.py
index 8f78f73..fd46067 100644
--- a/CHECLabPy/waveform_reducers/timing.py
+++ b/CHECLabPy/waveform_reducers/timing.py
@@ -62,7 +62,7 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
             xj = xi + 1
             yi = wf[xi]
             yj = wf[xj]
-            if yi >= half_max >= yj:
+            if yi >= half_max >= yj and yi > yj:
                 fwhm_r = xi + (half_max - yi) * (xj - xi) / (yj - yi)
                 break
 
@@ -71,13 +71,13 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
             xj = xi - 1
             yi = wf[xi]
             yj = wf[xj]
-            if yi >= half_max >= yj:
+            if yi >= half_max >= yj and yi > yj:
                 if not fwhm_l:  # Only set on first time
                     fwhm_l = xi + (half_max - yi) * (xj - xi) / (yj - yi)
-            if yi >= _90percent >= yj:
+            if yi >= _90percent >= yj and yi > yj:
                 if not rt_90:  # Only set on first time
                     rt_90 = xi + (_90percent - yi) * (xj - xi) / (yj - yi)
-            if yi >= _10percent >= yj:
+            if yi >= _10percent >= yj and yi > yj:
                 if not rt_10:  # Only set on first time
                     rt_10 = xi + (_10percent - yi) * (xj - xi) / (yj - yi)
             if fwhm_l and rt_90 and rt_10:
-- 
2.43.0


From 6ff434a857a88a3b08b6a83b35238d808476d4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:27 +0000
Subject: [PATCH 27/41] fix: amplitude matching no longer repeats forever
 between equally good DACs

---
 CHECLabPy/calib/amplitude_matcher.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index f3161c3..234dec7 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -126,6 +126,13 @@ class AmplitudeMatcher:
             elif stage[isp] == STAGE.STEP1:
                 next_dac[isp] += 1 * direction[isp]
 
+            # Going back to the previous dac without getting closer would be
+            # repeated forever (amplitude on the target, or equally far)
+            if (iteration > 0 and next_dac[isp] == previous_dac[isp]
+                    and distance[isp] == previous_distance[isp]):
+                stage[isp] += 1
+                continue
+
             if next_dac[isp] > 255:
                 next_dac[isp] = 255
                 stage[isp] = STAGE.FINISH
-- 
2.43.0


From e3c462e671b9590c7c5626c8bbcec2d02c836c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:41 +0000
Subject: [PATCH 28/41] fix: a spectrum fitter that has performed a fit can be
 sent to worker processes

---
 CHECLabPy/core/spectrum_fitter.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/CHECLabPy/core/spectrum_fitter.py b/CHECLabPy/core/spectrum_fitter.py
index 9b5be3b..15022cf 100644
--- a/CHECLabPy/core/spectrum_fitter.py
+++ b/CHECLabPy/core/spectrum_fitter.py
@@ -43,6 +43,10 @@ class SpectrumParameterCollection:
 
         self._prepare_parameters()
 
+    def __getstate__(self):
+        # The numba container cannot be pickled, it is recreated when needed
+        return dict(self.__dict__, _lookup_typed=None)
+
     def __len__(self):
         return self.spectrum_parameter_list.__len__()
 
@@ -140,6 +144,15 @@ class SpectrumFitter:
         self.fit_result_values = None
         self.fit_result_errors = None
 
+    def __getstate__(self):
+        # Allow a fitter to be sent to another process after it has performed
+        # a fit (the iminuit views and numba containers cannot be pickled)
+        state = dict(self.__dict__, charge_hist_y_typed=None)
+        for name in ['fit_result_values', 'fit_result_errors']:
+            if state[name] is not None:
+                state[name] = dict(state[name])
+        return state
+
     def load_config(self, path):
         """
         Load a YAML configuration file to set initial fitting parameters
-- 
2.43.0


From 49ce43dec4afac6234c4341b8f938371334c6b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:13 +0000
Subject: [PATCH 29/41] fix: waveforms calibrated online are marked as R1
 (attribute is_r1)

---
 CHECLabPy/calib/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/calib/waveform.py b/CHECLabPy/calib/waveform.py
index 9043f5d..8f07691 100644
--- a/CHECLabPy/calib/waveform.py
+++ b/CHECLabPy/calib/waveform.py
@@ -16,7 +16,7 @@ class WaveformCalibrator:
         fci = np.full(self.n_pixels, fci, dtype=np.uint16)
         calibrated_wfs = waveforms.astype(np.float32, copy=True)
         self.calibrator.ApplyEvent(waveforms, fci, calibrated_wfs)
-        calibrated_wfs.r1 = True
+        calibrated_wfs.is_r1 = True
         return calibrated_wfs
 
     @classmethod
-- 
2.43.0


From eb3c3a87a9ae8afe7571140d2a22735fba28020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 30/41] fix: ChargeStatistics gives a std of 0 (not NaN) where
 rounding makes the variance negative

---
 CHECLabPy/utils/resolutions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/utils/resolutions.py b/CHECLabPy/utils/resolutions.py
index 4a0f9d2..6495828 100644
--- a/CHECLabPy/utils/resolutions.py
+++ b/CHECLabPy/utils/resolutions.py
@@ -212,7 +212,7 @@ class ChargeStatistics:
         sum2 = df_p['sum2'].values
         n = df_p['n'].values
         mean = sum_ / n
-        std = np.sqrt((sum2 / n) - (mean**2))
+        std = np.sqrt(np.maximum((sum2 / n) - (mean**2), 0))
         df_p['mean'] = mean
         df_p['std'] = std
         df_c = self._df.copy().groupby('amplitude').sum().reset_index()
@@ -221,7 +221,7 @@ class ChargeStatistics:
         sum2 = df_c['sum2'].values
         n = df_c['n'].values
         mean = sum_ / n
-        std = np.sqrt((sum2 / n) - (mean**2))
+        std = np.sqrt(np.maximum((sum2 / n) - (mean**2), 0))
         df_c['mean'] = mean
         df_c['std'] = std
         return df_p, df_c
-- 
2.43.0


From 72e6d3428bcf30a5fd5be73d8343505310feff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 31/41] fix: get_row_column handles cameras whose numbers of
 rows and columns differ

---
 CHECLabPy/utils/mapping.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/CHECLabPy/utils/mapping.py b/CHECLabPy/utils/mapping.py
index 9ca40f3..f415b40 100644
--- a/CHECLabPy/utils/mapping.py
+++ b/CHECLabPy/utils/mapping.py
@@ -203,16 +203,14 @@ def get_row_column(pix_x, pix_y):
     hist_xc = np.histogram2d(pix_x, pix_y, bins=[max_ncol, max_nrow])[0]
     hist_yc = np.histogram2d(pix_x, pix_y, bins=[max_ncol, max_nrow])[0]
     # Find row and col with a complete number of pixels along them
-    full_col = np.bincount(hist_x.nonzero()[0]).argmax()
-    full_row = np.bincount(hist_y.nonzero()[0]).argmax()
+    full_col = np.bincount(hist_xc.nonzero()[1]).argmax()
+    full_row = np.bincount(hist_yc.nonzero()[0]).argmax()
     # Obtain coordinates of the pixels along this row and column
     full_x = hist_x[:, full_col][hist_xc[:, full_col].nonzero()]
     full_y = hist_y[full_row, :][hist_yc[full_row, :].nonzero()]
 
     # Define pixel bin edges based on full row and column of pixels
-    mid_dist = np.min(
-        np.sqrt((full_x - full_x[0]) ** 2 + (full_y - full_y[0]) ** 2)[1:]
-    ) / 2
+    mid_dist = dist / 2
     edges_x = np.array([*(full_x - mid_dist), full_x[-1] + mid_dist])
     edges_y = np.array([*(full_y - mid_dist), full_y[-1] + mid_dist])
 
-- 
2.43.0


From fac4f6cbf657f80e20a4c1e4de1bed3debe77c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 32/41] fix: one-line documentation of a reducer or column does
 not corrupt the generated extractor configuration

---
 CHECLabPy/scripts/generate_dl1_config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/scripts/generate_dl1_config.py b/CHECLabPy/scripts/generate_dl1_config.py
index a24c3a3..b92311b 100644
--- a/CHECLabPy/scripts/generate_dl1_config.py
+++ b/CHECLabPy/scripts/generate_dl1_config.py
@@ -36,13 +36,13 @@ def main():
             f.writelines("# {}\n".format(r.__name__))
             doc = r.__doc__
             if doc and not bare:
-                doc = re.sub(r'(\n\s*)', '\n#  ', doc).strip()[:-1]
+                doc = '#  ' + re.sub(r'(\n\s*)', '\n#  ', doc.strip()) + '\n'
                 f.writelines(doc)
             for c in r.columns:
                 f.writelines("{}: {}\n".format(c, default.get(c, True)))
                 doc = column.registry[c].__doc__
                 if doc and not bare:
-                    doc = re.sub(r'(\n\s*)', '\n#    ', doc).strip()[:-1]
+                    doc = '#    ' + re.sub(r'(\n\s*)', '\n#    ', doc.strip()) + '\n'
                     f.writelines(doc)
             f.writelines("\n")
 
-- 
2.43.0


From d7057403274466291f766d71ac6e2ce409681bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 33/41] fix: DL1Reader event lookup of a file without events is
 empty rather than a TypeError

---
 CHECLabPy/core/io/dl1_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CHECLabPy/core/io/dl1_reader.py b/CHECLabPy/core/io/dl1_reader.py
index 34c3a66..dce634c 100644
--- a/CHECLabPy/core/io/dl1_reader.py
+++ b/CHECLabPy/core/io/dl1_reader.py
@@ -42,6 +42,9 @@ class DL1Reader(HDF5Reader):
     def event_lookup(self):
         if self._event_lookup is None:
             print("[DL1Reader] Building Event Lookup")
+            if self.n_events == 0:  # No table exists in the file
+                self._event_lookup = np.zeros(0, dtype=np.uint32)
+                return self._event_lookup
             self._event_lookup = self.store.select_column(
                 'data', 'iev'
             ).values.reshape((self.n_events, self.n_pixels))[:, 0]
-- 
2.43.0


From 954c2a881e7eea9d5dab5e9389db0f747bce2d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 34/41] fix: camera images show exactly the limits set when a
 colorbar is attached

---
 CHECLabPy/plotting/camera.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CHECLabPy/plotting/camera.py b/CHECLabPy/plotting/camera.py
index 3f64016..2fe314b 100644
--- a/CHECLabPy/plotting/camera.py
+++ b/CHECLabPy/plotting/camera.py
@@ -123,6 +123,9 @@ class CameraImage(Plotter):
         Set the color scale limits from min to max
         """
         self.pixels.set_clim(zmin, zmax)
+        # The limits are set one after the other, and an attached colorbar
+        # reorders them in between if the new minimum exceeds the old maximum
+        self.pixels.set_clim(zmin, zmax)
         self.autoscale = False
 
     def set_z_log(self):
@@ -403,6 +406,9 @@ class CameraImageImshow(Plotter):
         Set the color scale limits from min to max
         """
         self.camera.set_clim(zmin, zmax)
+        # The limits are set one after the other, and an attached colorbar
+        # reorders them in between if the new minimum exceeds the old maximum
+        self.camera.set_clim(zmin, zmax)
         self.autoscale = False
 
 
-- 
2.43.0


From 51609b50fb22bc21f18a018818eb9992afca2e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:24 +0000
Subject: [PATCH 35/41] fix: DL1 float columns are always stored in single
 precision, so batches with large values can be appended

---
 CHECLabPy/scripts/extract_dl1.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index 132641f..13ef028 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -15,10 +15,8 @@ from CHECLabPy.calib import TimeCalibrator
 class DL1Writer(HDF5Writer):
     @staticmethod
     def _prepare_before_append(df):
-        df_float = df.select_dtypes(
-            include=['float']
-        ).apply(pd.to_numeric, downcast='float')
-        df[df_float.columns] = df_float
+        df_float = df.select_dtypes(include=['float'])
+        df[df_float.columns] = df_float.astype(np.float32)
         df['iev'] = df['iev'].astype(np.uint32)
         if 'first_cell_id' in df.columns:
             df['first_cell_id'] = df['first_cell_id'].astype(np.uint16)
-- 
2.43.0


From c7ec60b8a515c95a1c3712969fe8459d1e3cbfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 36/41] fix: the automatic DL1 file name never equals the input
 file, which was overwritten

---
 CHECLabPy/scripts/extract_dl1.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index 13ef028..3b97422 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -3,6 +3,7 @@ Executable for processing the R1 waveforms, and storing the reduced parameters
 into a HDF5 file, readable as a `pandas.DataFrame`.
 """
 import argparse
+import os
 import numpy as np
 import pandas as pd
 from tqdm import tqdm
@@ -36,6 +37,8 @@ class DL1Writer(HDF5Writer):
                                                                      '.h5')
             if reader.is_mc:
                 output_path = reader.path.replace('.simtel.gz', '_dl1.h5')
+            if output_path == reader.path:  # Never overwrite the input file
+                output_path = os.path.splitext(reader.path)[0] + '_dl1.h5'
 
         with cls(output_path) as writer:
             n_events_processed = 0
-- 
2.43.0


From 71472f0be1d5cc2d8d701f1c00f51b3765c602ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 37/41] fix: sensor data sheet lost in-range values of an array
 where the sheet has missing entries

---
 CHECLabPy/calib/sipm_data_sheet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/calib/sipm_data_sheet.py b/CHECLabPy/calib/sipm_data_sheet.py
index 28329ec..62fe081 100644
--- a/CHECLabPy/calib/sipm_data_sheet.py
+++ b/CHECLabPy/calib/sipm_data_sheet.py
@@ -23,10 +23,12 @@ class SiPMDataSheetConverter:
         for key, value in values.items():
             if value is not None:
                 interpolated = dict()
-                x = self.df[key].values
+                # Rows without an entry for key cannot be interpolated between
+                df = self.df.dropna(subset=[key])
+                x = df[key].values
 
                 for column in self.df.columns:
-                    f = interp1d(x, self.df[column].values)
+                    f = interp1d(x, df[column].values)
                     interpolated[column] = f(value)
                 return interpolated
 
-- 
2.43.0


From c4a812e32fc5108ecc36dbe650c2a3cdb539de67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 38/41] fix: xlogy(0, nan) was 0, fast-math removed its test
 for NaN

---
 CHECLabPy/stats/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/stats/pdf.py b/CHECLabPy/stats/pdf.py
index dcb653c..b29a20f 100644
--- a/CHECLabPy/stats/pdf.py
+++ b/CHECLabPy/stats/pdf.py
@@ -46,7 +46,7 @@ def normal_pdf(x, mean, std_deviation):
     return exp(-0.5 * u ** 2) / (SQRT2PI * std_deviation)
 
 
-@vectorize([float64(float32, float64)], fastmath=True)
+@vectorize([float64(float32, float64)])
 def xlogy(x, y):
     if x == 0 and not isnan(y):
         return 0
-- 
2.43.0


From 610bcc8c0261fc0ae2cb882b47ecf8621c25eb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 39/41] fix: SiPM spectrum was empty for an average
 illumination above about 12 p.e.

---
 CHECLabPy/spectrum_fitters/gentile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/spectrum_fitters/gentile.py b/CHECLabPy/spectrum_fitters/gentile.py
index 776b118..7abe64f 100644
--- a/CHECLabPy/spectrum_fitters/gentile.py
+++ b/CHECLabPy/spectrum_fitters/gentile.py
@@ -110,7 +110,7 @@ def sipm_gentile_spe(x, eped, eped_sigma, spe, spe_sigma, opct, lambda_):
         # Skip insignificant probabilities
         if pk > pk_max:
             pk_max = pk
-        elif pk < 1e-4:
+        elif pk < 1e-4 and pk_max > 0:
             break
 
         # Combine spread of pedestal and pe peaks
-- 
2.43.0


From 05bc565f73cf145661a8238b5d72af2172423ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:24 +0000
Subject: [PATCH 40/41] fix: trigger times lost precision when some of a run
 were 2^63 ns and more

Their column was signed for most events and unsigned for some, which pandas
joins as floating point.
---
 CHECLabPy/scripts/extract_dl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index 3b97422..450d2f6 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -164,7 +164,7 @@ class DL1Extractor:
             iev=waveforms.iev,
             pixel=self.pixel_array,
             t_cpu=waveforms.t_cpu,
-            t_tack=waveforms.t_tack,
+            t_tack=np.uint64(waveforms.t_tack),
             first_cell_id=waveforms.first_cell_id,
             baseline_subtracted=bs,
             **self.chain.process(waveforms_bs),
-- 
2.43.0


From f07f493505ea2ebb382416b1783670593d77e157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:15 +0000
Subject: [PATCH 41/41] fix: charge resolution plots used a column the charge
 resolution no longer has

---
 CHECLabPy/plotting/resolutions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/plotting/resolutions.py b/CHECLabPy/plotting/resolutions.py
index 3584104..e943939 100644
--- a/CHECLabPy/plotting/resolutions.py
+++ b/CHECLabPy/plotting/resolutions.py
@@ -44,7 +44,7 @@ class ChargeResolutionPlotter(Plotter):
     def plot_pixel(self, pixel, label=''):
         df_pixel = self.df_pixel.loc[self.df_pixel['pixel'] == pixel]
         x = df_pixel['true']
-        y = df_pixel['rmse']
+        y = df_pixel['charge_resolution']
         yerr = 1 / np.sqrt(x)
 
         x, y, yerr = bin_points(x, y, yerr)
@@ -53,7 +53,7 @@ class ChargeResolutionPlotter(Plotter):
 
     def plot_camera(self, label=''):
         x = self.df_camera['true']
-        y = self.df_camera['rmse']
+        y = self.df_camera['charge_resolution']
         yerr = 1 / np.sqrt(x)
 
         x, y, yerr = bin_points(x, y, yerr)
-- 
2.43.0

