From 136839a393835d33401e5590b318740a0203aa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 01/39] fix: remove every atlas line in the range, not every
 other one

---
 src/rascal/atlas.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rascal/atlas.py b/src/rascal/atlas.py
index a352e8d..6e9942f 100644
--- a/src/rascal/atlas.py
+++ b/src/rascal/atlas.py
@@ -324,9 +324,11 @@ class Atlas:
 
         """
 
-        for atlas_line in self.atlas_lines:
-            if abs(atlas_line.wavelength - wavelength) < tolerance:
-                self.atlas_lines.remove(atlas_line)
+        self.atlas_lines[:] = [
+            atlas_line
+            for atlas_line in self.atlas_lines
+            if not abs(atlas_line.wavelength - wavelength) < tolerance
+        ]
 
     def list(self):
         """
-- 
2.43.0


From 823df4cd87c82d9fb3af71aad3ccfc216b0cef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 02/39] fix: keep the brightest lines in wavelength order

---
 src/rascal/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index ac340b0..3eec4f7 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -397,9 +397,10 @@ def load_calibration_lines(
     intensity_list = lines[:, 2][intensity_mask].astype("float64")
 
     if brightest_n_lines is not None:
-        to_keep = np.argsort(np.array(intensity_list))[::-1][
-            :brightest_n_lines
-        ]
+        # The lines have to stay in wavelength order for the separation filter
+        to_keep = np.sort(
+            np.argsort(np.array(intensity_list))[::-1][:brightest_n_lines]
+        )
         element_list = element_list[to_keep]
         intensity_list = intensity_list[to_keep]
         wavelength_list = wavelength_list[to_keep]
-- 
2.43.0


From 74b8ae3fcc678a1ef17da65ebf6a6df6e339c013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 03/39] fix: keep a single line in filter_separation

---
 src/rascal/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 3eec4f7..0bf10c5 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -215,6 +215,10 @@ def filter_separation(wavelengths, min_separation=0):
 
     """
 
+    # A line without neighbours cannot be too close to one
+    if len(wavelengths) < 2:
+        return np.ones(len(wavelengths), dtype=bool)
+
     left_dists = np.zeros_like(wavelengths)
     left_dists[1:] = wavelengths[1:] - wavelengths[:-1]
 
-- 
2.43.0


From 54ad058c8ee4a1e09d6b8a49a72d81247cadd5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 04/39] fix: evaluate the saturation vapour pressure in Kelvin

---
 src/rascal/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 0bf10c5..0dade88 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -19,7 +19,9 @@ def get_vapour_pressure(temperature):
     K8 = 4.05113405421e05
     K9 = -2.38555575678e-01
     K10 = 6.50175348448e02
-    omega = temperature + K9 / (temperature - K10)
+    # The equations are given for the absolute temperature, in Kelvin
+    T = temperature + 273.15
+    omega = T + K9 / (T - K10)
     A = omega**2.0 + K1 * omega + K2
     B = K3 * omega**2.0 + K4 * omega + K5
     C = K6 * omega**2.0 + K7 * omega + K8
-- 
2.43.0


From 6992c3b0e025bace2ac6cba5bcb2b57fcd45690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 05/39] fix: do not truncate the fields of a line list

---
 src/rascal/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 0dade88..aed19bc 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -364,9 +364,9 @@ def load_calibration_lines(
             file_path = pkg_resources.resource_filename(
                 "rascal", "arc_lines/nist_clean.csv"
             )
-            lines = np.loadtxt(file_path, delimiter=",", dtype=">U12")
+            lines = np.loadtxt(file_path, delimiter=",", dtype=str, ndmin=2)
         elif os.path.exists(linelist):
-            lines = np.loadtxt(linelist, delimiter=",", dtype=">U12")
+            lines = np.loadtxt(linelist, delimiter=",", dtype=str, ndmin=2)
         else:
             raise ValueError(
                 f"Unknown string is provided as linelist: {linelist}."
-- 
2.43.0


From e41cabec9f212ec8980845893b05ecc316a33fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 06/39] fix: reject an unsupported min_intensity instead of
 ignoring it

---
 src/rascal/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index aed19bc..d03b354 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -393,7 +393,7 @@ def load_calibration_lines(
     )
 
     # Filter intensities
-    if isinstance(min_intensity, (float, int, list, np.ndarray)):
+    if min_intensity is not None:
         intensity_mask = filter_intensity(elements, lines, min_intensity)
     else:
         intensity_mask = np.ones_like(lines[:, 0]).astype(bool)
-- 
2.43.0


From e46be98ccd14d43afa9a747ef7405366eca6467c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 07/39] fix: look up the Hough density as (gradient, intercept)

---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 0673c22..6d93ed8 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -620,7 +620,7 @@ class Calibrator:
                 # modified cost function weighted by the Hough space density
                 if (self.hough_weight is not None) & (twoditp is not None):
                     weight = self.hough_weight * np.sum(
-                        twoditp(intercept, gradient, grid=False)
+                        twoditp(gradient, intercept, grid=False)
                     )
 
                 else:
-- 
2.43.0


From 388544dddb46d4642c37acbecfe1b1d06a55ad66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 08/39] fix: define the Hough density for every hough_weight

---
 src/rascal/calibrator.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 6d93ed8..83ff429 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -494,7 +494,9 @@ class Calibrator:
         for p in np.unique(x):
             candidates[p] = y[x == p]
 
-        if self.ht.xedges is not None:
+        twoditp = None
+
+        if (self.ht.xedges is not None) and (self.hough_weight is not None):
             xbin_size = (self.ht.xedges[1] - self.ht.xedges[0]) / 2.0
             ybin_size = (self.ht.yedges[1] - self.ht.yedges[0]) / 2.0
 
@@ -505,9 +507,6 @@ class Calibrator:
                     self.ht.hist,
                 )
 
-        else:
-            twoditp = None
-
         # Calculate initial error given pre-existing fit
         if fit_coeff is not None:
             err, _, _ = self._match_bijective(candidates, peaks, fit_coeff)
-- 
2.43.0


From 4c403a4441c27b5fb174b5d0f72c86f75bb3c7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 09/39] fix: keep pixel and wavelength columns apart when
 merging candidates

---
 src/rascal/calibrator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 83ff429..b4c9162 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -149,7 +149,10 @@ class Calibrator:
             for pair in np.array(pairs).T:
                 merged.append(pair)
 
-        return np.sort(np.array(merged))
+        merged = np.array(merged)
+
+        # Sort by pixel, keeping each row together
+        return merged[np.argsort(merged[:, 0], kind="stable")]
 
     def _get_most_common_candidates(
         self, candidates, top_n_candidate, weighted
-- 
2.43.0


From 7f3b1132b72e07075d80cc78f89e5a18974ab3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 10/39] fix: initialise every property of the calibrator at
 construction

---
 src/rascal/calibrator.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index b4c9162..71e0114 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -52,6 +52,11 @@ class Calibrator:
         self.pixel_list = None
         self.plotting_library = None
         self.constrain_poly = None
+        self.candidate_tolerance = None
+        self.pairs = None
+        self.candidates = None
+        self.polyfit = np.polynomial.polynomial.polyfit
+        self.polyval = np.polynomial.polynomial.polyval
 
         # hough_properties
         self.num_slopes = None
@@ -1425,12 +1430,12 @@ class Calibrator:
         self._generate_pairs()
 
     def do_hough_transform(self, brute_force=False):
-        if self.pairs == []:
-            logging.warning("pairs list is empty. Try generating now.")
+        if (self.pairs is None) or (len(self.pairs) == 0):
+            self.logger.warning("pairs list is empty. Try generating now.")
             self._generate_pairs()
 
-            if self.pairs == []:
-                logging.error("pairs list is still empty.")
+            if len(self.pairs) == 0:
+                self.logger.error("pairs list is still empty.")
 
         # Generate the hough_points from the pairs
         self.ht.set_constraints(
-- 
2.43.0


From 50d3aa96904ff9fad3eb24342bb77486ab5e9e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 11/39] fix: update the pairs after removing atlas lines

---
 src/rascal/calibrator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 71e0114..9364d5c 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -110,7 +110,7 @@ class Calibrator:
             for pair in itertools.product(self.peaks, self.atlas.get_lines())
         ]
 
-        if self.constrain_poly:
+        if self.constrain_poly and len(pairs) > 0:
             # Remove pairs outside polygon
             valid_area = Delaunay(
                 [
@@ -135,7 +135,7 @@ class Calibrator:
             self.pairs = np.array(pairs)[mask]
 
         else:
-            self.pairs = np.array(pairs)
+            self.pairs = np.array(pairs).reshape(-1, 2)
 
     def _merge_candidates(self, candidates):
         """
@@ -1353,6 +1353,7 @@ class Calibrator:
         """
 
         self.atlas.remove_atlas_lines_range(wavelength, tolerance)
+        self._generate_pairs()
 
     def list_atlas(self):
         """
@@ -1367,6 +1368,7 @@ class Calibrator:
         """
 
         self.atlas.clear()
+        self._generate_pairs()
 
     def add_user_atlas(
         self,
-- 
2.43.0


From ba37acd9ad1ca66f41535d6eb7320bf20b56e29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 12/39] fix: add a pixel-wavelength pair at its place in both
 lists

---
 src/rascal/calibrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 9364d5c..22bafe0 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -2006,7 +2006,8 @@ class Calibrator:
 
         """
 
-        arg = np.argwhere(pix > self.matched_peaks)[0]
+        # Keep the order of the matched peaks
+        arg = np.sum(np.asarray(self.matched_peaks) < pix)
 
         # Only update the lists if both can be inserted
         matched_peaks = np.insert(self.matched_peaks, arg, pix)
-- 
2.43.0


From 258efdbb67f822a91d82cebfb3a7752fbba4f9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 13/39] fix: index the candidates with the brute force sample

---
 src/rascal/calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 22bafe0..4a9b685 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -537,8 +537,8 @@ class Calibrator:
                 stop_n_candidateow = False
 
                 if brute_force:
-                    x_hat = x[[sample]]
-                    y_hat = y[[sample]]
+                    x_hat = x[list(sample)]
+                    y_hat = y[list(sample)]
 
                 else:
                     # Pick some random peaks
-- 
2.43.0


From 2bb5be4a3bff1a55d46e9e0b5f43faa6fc90c60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 14/39] fix: bound the number of draws for each sample

---
 src/rascal/calibrator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 4a9b685..7229a9e 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -533,7 +533,11 @@ class Calibrator:
             keep_trying = True
             self.logger.debug(sample)
 
-            while keep_trying:
+            # A combination is only tried once, a random draw can be repeated
+            tries_left = 1 if brute_force else 1000
+
+            while keep_trying and tries_left > 0:
+                tries_left -= 1
                 stop_n_candidateow = False
 
                 if brute_force:
-- 
2.43.0


From 8597eace9d6c5b7772f86e6d4d75a5c908e268b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 15/39] fix: keep the slope limits up to date with the pixel
 list

---
 src/rascal/calibrator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 7229a9e..8daf904 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -992,6 +992,9 @@ class Calibrator:
                 "use_plotly() to manually select the library."
             )
 
+        # the slopes depend on the pixel_list
+        self.set_hough_properties()
+
     def set_hough_properties(
         self,
         num_slopes=None,
-- 
2.43.0


From a083828c7b21ee2860cec310bb9f30215c8a8192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 16/39] fix: return the Hough transform saved to memory

---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 8daf904..9af0df9 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1496,7 +1496,7 @@ class Calibrator:
 
         """
 
-        self.ht.save(
+        return self.ht.save(
             filename=filename,
             fileformat=fileformat,
             delimiter=delimiter,
-- 
2.43.0


From 76a4f2a84be3b8bed11929b40c49cc2ddc5a9f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 17/39] fix: load the Hough points from json as an array

---
 src/rascal/houghtransform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index 41a2699..7831d1c 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -324,7 +324,7 @@ class HoughTransform:
 
             input_json = json.load(open(filename))
 
-            self.hough_points = input_json["hough_points"]
+            self.hough_points = np.array(input_json["hough_points"])
             self.hist = np.array(input_json["hist"]).astype("float")
             self.xedges = np.array(input_json["xedges"]).astype("float")
             self.yedges = np.array(input_json["yedges"]).astype("float")
-- 
2.43.0


From 54651952d2aece260238439b88f686135dd1f665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 18/39] fix: restore the Hough lines when loading a Hough
 transform

---
 src/rascal/calibrator.py     |  2 ++
 src/rascal/houghtransform.py | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 9af0df9..6d237d9 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1519,6 +1519,8 @@ class Calibrator:
         """
 
         self.ht.load(filename=filename, filetype=filetype)
+        self.hough_points = self.ht.hough_points
+        self.hough_lines = self.ht.hough_lines
 
     def set_known_pairs(self, pix=(), wave=()):
         """
diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index 7831d1c..46b5056 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -186,8 +186,14 @@ class HoughTransform:
             bins=(xbins, ybins),
         )
 
-        # Get the line fit_coeffients from the promising bins in the
-        # histogram
+        self._rank_hough_lines()
+
+    def _rank_hough_lines(self):
+        """
+        Get the line fit_coeffients from the promising bins in the histogram.
+
+        """
+
         self.hist_sorted_arg = np.dstack(
             np.unravel_index(
                 np.argsort(self.hist.ravel())[::-1], self.hist.shape
@@ -337,3 +343,5 @@ class HoughTransform:
             raise ValueError(
                 "Unknown filetype %s, it has to be npy or json" % filetype
             )
+
+        self._rank_hough_lines()
-- 
2.43.0


From c4ea677eeda2cd85df8a16e0d1236627b017fd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 19/39] fix: reject an unknown file format when saving a Hough
 transform

---
 src/rascal/houghtransform.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index 46b5056..ef2d9bc 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -246,6 +246,11 @@ class HoughTransform:
 
         fileformat_split = fileformat.split(delimiter)
 
+        if not set(fileformat_split) <= {"npy", "json"}:
+            raise ValueError(
+                "Unknown fileformat %s, choose from npy and json" % fileformat
+            )
+
         if "npy" in fileformat_split:
             output_npy = []
 
-- 
2.43.0


From 26b77fbe86479aa9d5c3885a60ad8767242f8c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 20/39] fix: accept a single line in add_user_atlas

---
 src/rascal/atlas.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rascal/atlas.py b/src/rascal/atlas.py
index 6e9942f..be698d2 100644
--- a/src/rascal/atlas.py
+++ b/src/rascal/atlas.py
@@ -246,6 +246,16 @@ class Atlas:
 
         """
 
+        # A single line can be given without putting it in a list
+        if isinstance(elements, str):
+            elements = [elements]
+
+        if np.isscalar(wavelengths):
+            wavelengths = [wavelengths]
+
+        if np.isscalar(intensities):
+            intensities = [intensities]
+
         if not isinstance(elements, list):
             elements = list(elements)
 
-- 
2.43.0


From 80318114e1c7df07a579adbe0b6fbd9c4aa35f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 21/39] fix: keep the coefficients of a new model

---
 src/rascal/synthetic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rascal/synthetic.py b/src/rascal/synthetic.py
index 64c159d..4b50d22 100644
--- a/src/rascal/synthetic.py
+++ b/src/rascal/synthetic.py
@@ -36,6 +36,7 @@ class SyntheticSpectrum:
         """
 
         if isinstance(coefficients, (list, np.ndarray)):
+            self.coefficients = coefficients
             self.degree = len(coefficients) - 1
             self.model = models.polynomial(a=coefficients, degree=self.degree)
 
-- 
2.43.0


From 833320042309f1705945c02cc9d1c4796b25baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 22/39] fix: match_peaks stores and returns one solution for
 all options

---
 src/rascal/calibrator.py | 113 ++++++++++++++-------------------------
 1 file changed, 41 insertions(+), 72 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 6d237d9..4d2307c 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1813,7 +1813,7 @@ class Calibrator:
             fit_deg = len(fit_coeff) - 1
 
         if refine:
-            fit_coeff_new = fit_coeff.copy()
+            fit_coeff_new = np.array(fit_coeff, dtype="float")
 
             if n_delta is None:
                 n_delta = len(fit_coeff_new) - 1
@@ -1838,9 +1838,10 @@ class Calibrator:
                 )
                 return fit_coeff, None, None, None, None, None, None
 
+            fit_coeff = fit_coeff_new
+
         matched_peaks = []
         matched_atlas = []
-        residuals = []
 
         atlas_lines = self.atlas.get_lines()
 
@@ -1853,115 +1854,83 @@ class Calibrator:
             if diff_abs.any():
                 matched_peaks.append(p)
                 matched_atlas.append(list(np.asarray(atlas_lines)[diff_abs]))
-                residuals.append(diff_abs)
 
         # Create permutations:
         candidates = [[]]
 
         # match is a list
-        for match in matched_atlas:
-            if len(match) == 0:
-                continue
-
+        for p, match in zip(matched_peaks, matched_atlas):
             self.logger.info("matched: {}".format(match))
 
-            new_candidates = []
-            # i is an int
-            # candidates is a list of list
-
-            for i in range(len(candidates)):
-                # c is a list
-                c = candidates[i]
-
-                if len(match) == 1:
-                    c.extend(match)
+            x = self.polyval(p, fit_coeff)
+            # the closest line goes first
+            match = sorted(match, key=lambda line: abs(line - x))
 
-                else:
-                    # rep is a list of tuple
-                    rep = ~np.in1d(match, c)
+            new_candidates = []
 
-                    if rep.any():
-                        for j in np.argwhere(rep):
-                            new_c = c + [match[j]]
-                            new_candidates.append(new_c)
+            for c in candidates:
+                # only reuse a line if there is nothing else in reach
+                unused = [line for line in match if line not in c]
 
-                # Only add if new_candidates is not an empty list
-                if new_candidates != []:
-                    if candidates[0] == []:
-                        candidates[0] = new_candidates
+                for line in unused if len(unused) > 0 else match:
+                    new_candidates.append(c + [line])
 
-                    else:
-                        candidates.append(new_candidates)
+            # limit the number of permutations
+            candidates = new_candidates[:1000]
 
         if len(candidates) > 1:
             self.logger.info(
                 "More than one match solution found, checking permutations."
             )
 
-        self.matched_peaks = np.array(copy.deepcopy(matched_peaks))
+        matched_peaks = np.array(matched_peaks)
 
         # Check all candidates
-        best_err = 1e9
-        self.matched_atlas = None
-        self.residuals = None
+        best_err = np.inf
+        best_atlas = None
 
         for candidate in candidates:
             matched_atlas = np.array(candidate)
 
-            fit_coeff = self.polyfit(matched_peaks, matched_atlas, fit_deg)
+            candidate_coeff = self.polyfit(
+                matched_peaks, matched_atlas, fit_deg
+            )
 
-            x = self.polyval(matched_peaks, fit_coeff)
-            residuals = np.abs(matched_atlas - x)
-            err = np.sum(residuals)
+            x = self.polyval(matched_peaks, candidate_coeff)
+            err = np.sum(np.abs(matched_atlas - x))
 
             if err < best_err:
-                self.matched_atlas = matched_atlas
-                self.residuals = residuals
-
+                best_atlas = matched_atlas
                 best_err = err
 
-        assert self.matched_atlas is not None
-        assert self.residuals is not None
-
-        self.rms = np.sqrt(
-            np.nansum(self.residuals**2.0) / len(self.residuals)
-        )
-
-        self.peak_utilisation = len(self.matched_peaks) / len(self.peaks)
-        self.atlas_utilisation = len(self.matched_atlas) / len(self.atlas)
+        assert best_atlas is not None
 
         if robust_refit:
-            self.fit_coeff = models.robust_polyfit(
-                np.asarray(self.matched_peaks),
-                np.asarray(self.matched_atlas),
-                fit_deg,
+            fit_coeff_robust = models.robust_polyfit(
+                matched_peaks, best_atlas, fit_deg
             )
 
-            if np.any(np.isnan(self.fit_coeff)):
+            if np.any(np.isnan(fit_coeff_robust)):
                 self.logger.warning(
                     "robust_polyfit() returns None. "
                     "Input solution is returned."
                 )
-                return (
-                    fit_coeff,
-                    self.matched_peaks,
-                    self.matched_atlas,
-                    self.rms,
-                    self.residuals,
-                    self.peak_utilisation,
-                    self.atlas_utilisation,
-                )
 
             else:
-                self.residuals = self.matched_atlas - self.polyval(
-                    self.matched_peaks, self.fit_coeff
-                )
-                self.rms = np.sqrt(
-                    np.nansum(self.residuals**2.0) / len(self.residuals)
-                )
+                fit_coeff = fit_coeff_robust
 
-        else:
-            self.fit_coeff = fit_coeff_new
+        # The residuals are those of the solution to be returned
+        residuals = best_atlas - self.polyval(matched_peaks, fit_coeff)
+
+        self.fit_coeff = fit_coeff
+        self.matched_peaks = matched_peaks
+        self.matched_atlas = best_atlas
+        self.residuals = residuals
+        self.rms = np.sqrt(
+            np.nansum(self.residuals**2.0) / len(self.residuals)
+        )
+        self.peak_utilisation = len(self.matched_peaks) / len(self.peaks)
+        self.atlas_utilisation = len(self.matched_atlas) / len(self.atlas)
 
         return (
             self.fit_coeff,
-- 
2.43.0


From 2dfbc0208e2603ae2a724a356d1624b45e8082cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 23/39] fix: sample enough points for the degree that is fitted

---
 src/rascal/calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 4d2307c..dbc836a 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1663,8 +1663,8 @@ class Calibrator:
             )
             self.sample_size = len(self.atlas)
 
-        if self.sample_size <= fit_deg:
-            self.sample_size = fit_deg + 1
+        if self.sample_size <= self.fit_deg:
+            self.sample_size = self.fit_deg + 1
 
         if (self.hough_lines is None) or (self.hough_points is None):
             self.do_hough_transform()
-- 
2.43.0


From 2b44a13bf32f148f1ff748eaa7b264d0b9bf92d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 24/39] fix: compare every peak with every line in the
 polynomial candidates

---
 src/rascal/calibrator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index dbc836a..d1a06f6 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -299,7 +299,7 @@ class Calibrator:
         self.candidates = []
 
         # actual wavelengths
-        actual = np.array(self.atlas.get_lines())
+        actual = self.pairs[:, 1]
 
         n = len(self.hough_lines)
 
@@ -310,7 +310,7 @@ class Calibrator:
 
         for d in delta:
             # predicted wavelength
-            predicted = self.polyval(self.peaks, self.fit_coeff) + d
+            predicted = self.polyval(self.pairs[:, 0], self.fit_coeff) + d
             diff = np.abs(actual - predicted)
             mask = diff < candidate_tolerance
 
@@ -319,7 +319,7 @@ class Calibrator:
                     actual[mask], 1.0, predicted[mask], self.range_tolerance
                 )
                 self.candidates.append(
-                    [self.peaks[mask], actual[mask], weight]
+                    [self.pairs[:, 0][mask], actual[mask], weight]
                 )
 
     def _match_bijective(self, candidates, peaks, fit_coeff):
-- 
2.43.0


From cecc81b5ae6834b820886a80e1c612cb31681432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 25/39] fix: refine every peak in its own window

---
 src/rascal/util.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index d03b354..cf3c58b 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -487,12 +487,10 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
     length = len(spectrum)
 
     for peak in peaks:
-        y = spectrum[
-            max(0, int(peak) - window_width) : min(
-                int(peak) + window_width, length
-            )
-        ]
-        y /= np.nanmax(y)
+        left = max(0, int(peak) - window_width)
+        y = spectrum[left : min(int(peak) + window_width, length)]
+        # Do not modify the spectrum, the windows can overlap
+        y = y / np.nanmax(y)
         x = np.arange(len(y))
 
         mask = np.isfinite(y) & ~np.isnan(y)
@@ -514,7 +512,7 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
             if centre > len(spectrum) or centre < 0:
                 continue
 
-            refined_peaks.append(peak - window_width + centre)
+            refined_peaks.append(left + centre)
 
         except RuntimeError:
             continue
-- 
2.43.0


From c9f598e0da1ca61be132b06a72a15d4fe4866c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 26/39] fix: do not modify the spectrum when plotting it in
 logarithm

---
 src/rascal/plotting.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 96695d0..da15676 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -742,8 +742,7 @@ def plot_fit(
 
     if spectrum is not None:
         if log_spectrum:
-            spectrum[spectrum < 0] = 1e-100
-            spectrum = np.log10(spectrum)
+            spectrum = np.log10(np.where(spectrum < 0, 1e-100, spectrum))
             vline_max = np.nanmax(spectrum) * 2.0
             text_box_pos = 1.2 * max(spectrum)
 
-- 
2.43.0


From daf08d84bdc11a768888f5ce99c3980f2a158d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 27/39] fix: plot the arc without a spectrum

---
 src/rascal/plotting.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index da15676..4da423a 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -1202,7 +1202,7 @@ def plot_arc(
 
     """
 
-    if pixel_list is None:
+    if (pixel_list is None) and (calibrator.spectrum is not None):
         pixel_list = np.arange(len(calibrator.spectrum))
 
     if calibrator.plot_with_matplotlib:
@@ -1270,7 +1270,12 @@ def plot_arc(
 
         fig = go.Figure()
 
-        if log_spectrum:
+        if calibrator.spectrum is None:
+            xmin = 0.0
+            xmax = 1.05
+            pixel_max = max(calibrator.peaks)
+
+        elif log_spectrum:
             # Plot all-pairs
             fig.add_trace(
                 go.Scatter(
@@ -1304,6 +1309,9 @@ def plot_arc(
             xmin = min(calibrator.spectrum / calibrator.spectrum.max())
             xmax = max(calibrator.spectrum / calibrator.spectrum.max())
 
+        if calibrator.spectrum is not None:
+            pixel_max = len(calibrator.spectrum)
+
         # Add vlines
         for i in calibrator.peaks:
             fig.add_shape(
@@ -1327,7 +1335,7 @@ def plot_arc(
             xaxis=dict(
                 title="Pixel",
                 zeroline=False,
-                range=[0.0, len(calibrator.spectrum)],
+                range=[0.0, pixel_max],
                 showgrid=True,
             ),
             hovermode="closest",
-- 
2.43.0


From a5af81725c3a891c5ad9ef4395e99598b9756ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 28/39] fix: label the axes of the search space with what is
 drawn

---
 src/rascal/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 4da423a..1bf5fdf 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -440,8 +440,8 @@ def plot_search_space(
             calibrator.max_wavelength + calibrator.range_tolerance,
         )
 
-        plt.xlabel("Wavelength / A")
-        plt.ylabel("Pixel")
+        plt.xlabel("Pixel")
+        plt.ylabel("Wavelength / A")
         plt.legend()
         plt.grid()
         plt.tight_layout()
@@ -625,7 +625,7 @@ def plot_search_space(
         fig.update_layout(
             autosize=True,
             yaxis=dict(
-                title="Pixel",
+                title="Wavelength / A",
                 range=[
                     calibrator.min_wavelength
                     - calibrator.range_tolerance * 1.1,
@@ -635,7 +635,7 @@ def plot_search_space(
                 showgrid=True,
             ),
             xaxis=dict(
-                title="Wavelength / A",
+                title="Pixel",
                 zeroline=False,
                 range=[0.0, calibrator.pixel_list.max()],
                 showgrid=True,
-- 
2.43.0


From b4fa647389888d2525d639d3aa43d9c326de7911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 29/39] fix: initialise the coefficients of an empty synthetic
 spectrum

---
 src/rascal/synthetic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rascal/synthetic.py b/src/rascal/synthetic.py
index 4b50d22..e8d9b21 100644
--- a/src/rascal/synthetic.py
+++ b/src/rascal/synthetic.py
@@ -27,6 +27,7 @@ class SyntheticSpectrum:
             self.set_model(self.coefficients)
 
         else:
+            self.coefficients = None
             self.model = None
             self.degree = None
 
-- 
2.43.0


From adb1eda6b86ef0d998d38149c205904291188bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 30/39] fix: keep the sample size set by the user in a brute
 force fit

---
 src/rascal/calibrator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index d1a06f6..3cc0ce9 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -482,7 +482,9 @@ class Calibrator:
         if brute_force or (self.sample_size >= len(np.unique(x))):
             idx = range(len(x))
             sampler = itertools.combinations(idx, self.sample_size)
-            self.sample_size = len(np.unique(x))
+
+            if self.sample_size > len(np.unique(x)):
+                self.sample_size = len(np.unique(x))
 
         else:
             sampler = range(int(max_tries))
-- 
2.43.0


From 40023353591463485b9e5d51e64347ab85f91a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 31/39] fix: keep the logger and its level when they are not
 given

---
 src/rascal/calibrator.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 3cc0ce9..75235a6 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -875,8 +875,8 @@ class Calibrator:
         pixel_list=None,
         plotting_library=None,
         seed=None,
-        logger_name="Calibrator",
-        log_level="warning",
+        logger_name=None,
+        log_level=None,
     ):
         """
         Initialise the calibrator object.
@@ -897,17 +897,34 @@ class Calibrator:
         logger_name: string (default: 'Calibrator')
             The name of the logger. It can use an existing logger if a
             matching name is provided.
-        log_level: string (default: 'info')
+        log_level: string (default: 'warning')
             Choose {critical, error, warning, info, debug, notset}.
 
         """
 
         # initialise the logger
-        self.logger = logging.getLogger(logger_name)
+        if logger_name is not None:
+            self.logger = logging.getLogger(logger_name)
+
+        elif self.logger is None:
+            self.logger = logging.getLogger("Calibrator")
+
+        else:
+            pass
+
         self.logger.propagate = False
-        level = logging.getLevelName(log_level.upper())
-        self.logger.setLevel(level)
-        self.log_level = level
+
+        # set the log_level
+        if log_level is not None:
+            self.log_level = logging.getLevelName(log_level.upper())
+
+        elif self.log_level is None:
+            self.log_level = logging.getLevelName("WARNING")
+
+        else:
+            pass
+
+        self.logger.setLevel(self.log_level)
 
         formatter = logging.Formatter(
             "[%(asctime)s] %(levelname)s [%(filename)s:%(lineno)d] "
-- 
2.43.0


From 03daacf3ff3c521804518869626ad1a8fa7c6db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:12 +0000
Subject: [PATCH 32/39] fix: do not keep a fit type that is rejected

---
 src/rascal/calibrator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 75235a6..dd3d97f 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1651,19 +1651,18 @@ class Calibrator:
             self.fit_deg = len(fit_coeff) - 1
 
         self.fit_tolerance = fit_tolerance
-        self.fit_type = fit_type
         self.brute_force = brute_force
         self.progress = progress
 
-        if self.fit_type == "poly":
+        if fit_type == "poly":
             self.polyfit = np.polynomial.polynomial.polyfit
             self.polyval = np.polynomial.polynomial.polyval
 
-        elif self.fit_type == "legendre":
+        elif fit_type == "legendre":
             self.polyfit = np.polynomial.legendre.legfit
             self.polyval = np.polynomial.legendre.legval
 
-        elif self.fit_type == "chebyshev":
+        elif fit_type == "chebyshev":
             self.polyfit = np.polynomial.chebyshev.chebfit
             self.polyval = np.polynomial.chebyshev.chebval
 
@@ -1672,6 +1671,8 @@ class Calibrator:
                 "fit_type must be: (1) poly, (2) legendre or (3) chebyshev"
             )
 
+        self.fit_type = fit_type
+
         # Reduce sample_size if it is larger than the number of atlas available
         if self.sample_size > len(self.atlas):
             self.logger.warning(
-- 
2.43.0


From cddba260836950b43613b012e0a6c9a3a3764f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 33/39] fix: keep the plotting library chosen with use_plotly
 or use_matplotlib

---
 src/rascal/calibrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index dd3d97f..fbd2cc6 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -857,6 +857,7 @@ class Calibrator:
 
         """
 
+        self.plotting_library = "matplotlib"
         self.plot_with_matplotlib = True
         self.plot_with_plotly = False
 
@@ -866,6 +867,7 @@ class Calibrator:
 
         """
 
+        self.plotting_library = "plotly"
         self.plot_with_plotly = True
         self.plot_with_matplotlib = False
 
-- 
2.43.0


From 929d7b2f6272dad356d7b460f76480f9ba1cbf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:08 +0000
Subject: [PATCH 34/39] fix: refine_peaks lost a peak with a non-finite sample
 in its window

---
 src/rascal/util.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index cf3c58b..3d94253 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -489,8 +489,13 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
     for peak in peaks:
         left = max(0, int(peak) - window_width)
         y = spectrum[left : min(int(peak) + window_width, length)]
+        finite = np.isfinite(y)
+
+        if not np.any(finite):
+            continue
+
         # Do not modify the spectrum, the windows can overlap
-        y = y / np.nanmax(y)
+        y = y / np.max(y[finite])
         x = np.arange(len(y))
 
         mask = np.isfinite(y) & ~np.isnan(y)
@@ -499,11 +504,13 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
         if n == 0:
             continue
 
+        # Only the finite samples enter the fit and its initial guess
+        x, y = x[mask], y[mask]
         mean = np.sum(x * y) / n
         sigma = np.sum(y * (x - mean) ** 2) / n
 
         try:
-            popt, _ = curve_fit(gauss, x[mask], y[mask], p0=[1, mean, sigma])
+            popt, _ = curve_fit(gauss, x, y, p0=[1, mean, sigma])
             height, centre, _ = popt
 
             if height < 0:
-- 
2.43.0


From d90f5a70e11e28190953b33e753154976207e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 35/39] fix: refine_peaks could return the same position twice
 around one outside the spectrum

---
 src/rascal/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 3d94253..057d109 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -526,13 +526,14 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
 
     refined_peaks = np.array(refined_peaks)
     mask = (refined_peaks > 0) & (refined_peaks < len(spectrum))
+    refined_peaks = refined_peaks[mask]
 
     # Remove peaks that are within rounding errors from each other from the
     # curve_fit
-    distance_mask = np.isclose(refined_peaks[:-1], refined_peaks[1:])
-    distance_mask = np.insert(distance_mask, 0, False)
+    distance_mask = np.zeros(len(refined_peaks), dtype=bool)
+    distance_mask[1:] = np.isclose(refined_peaks[:-1], refined_peaks[1:])
 
-    return refined_peaks[mask & ~distance_mask]
+    return refined_peaks[~distance_mask]
 
 
 def _derivative(p):
-- 
2.43.0


From 86c99ef8c8ea259848abf4e555bfaa0fe1b74f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:21 +0000
Subject: [PATCH 36/39] fix: robust_polyfit took its initial coefficients,
 lowest order first, as highest order first

---
 src/rascal/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rascal/models.py b/src/rascal/models.py
index 68aff03..21c8667 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -98,8 +98,11 @@ def robust_polyfit(x, y, degree=3, x0=None):
     p_init = copy.copy(x0)
     # Need to normalise the fit function too
     if p_init is not None:
+        # x0 is lowest order first, the fit is highest order first
+        p_init = np.array(p_init, dtype=float)[::-1]
+
         for i in range(0, degree):
-            p_init[i] *= x.std() ** i
+            p_init[i] *= x.std() ** (degree - i)
 
         p_init /= y.std()
     else:
-- 
2.43.0


From f99eb2214716973729eb2406a664cc03cc0dc2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:14 +0000
Subject: [PATCH 37/39] fix: look up the density of a peak in the histogram bin
 it was counted in

---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index fbd2cc6..27bff09 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -528,7 +528,7 @@ class Calibrator:
             # weight the probability of choosing the sample by the inverse
             # line density
             h = np.histogram(peaks, bins=10)
-            prob = 1.0 / h[0][np.digitize(peaks, h[1], right=True) - 1]
+            prob = 1.0 / h[0][np.digitize(peaks, h[1][1:-1])]
             prob = prob / np.sum(prob)
 
         for sample in sampler_list:
-- 
2.43.0


From 7c1bc4679fd7347d752d1ac0e2793713ceb85d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 38/39] fix: plot the residuals of the solution, not those of
 the matched lines from themselves

---
 src/rascal/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 1bf5fdf..b61ae7e 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -799,12 +799,13 @@ def plot_fit(
         for p, x in zip(calibrator.matched_peaks, calibrator.matched_atlas):
             diff = calibrator.atlas.get_lines() - x
             idx = np.argmin(np.abs(diff))
-            all_diff.append(diff[idx])
+            residual = x - calibrator.polyval(p, fit_coeff)
+            all_diff.append(residual)
 
             calibrator.logger.info("Peak at: {} A".format(x))
 
             fitted_peaks.append(p)
-            fitted_diff.append(diff[idx])
+            fitted_diff.append(residual)
             calibrator.logger.info(
                 "- matched to {} A".format(calibrator.atlas.get_lines()[idx])
             )
-- 
2.43.0


From 98ae9d5ebe16ebd0d941f70160329c46d2261194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:29 +0000
Subject: [PATCH 39/39] fix: draw the peaks with matplotlib as well when
 plot_arc has no spectrum

---
 src/rascal/plotting.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index b61ae7e..da54eba 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -1242,6 +1242,14 @@ def plot_arc(
             plt.legend()
 
         else:
+            plt.vlines(
+                calibrator.peaks,
+                0,
+                1.05,
+                label="Detected Peaks",
+                color="C1",
+            )
+            plt.legend()
             plt.xlim(0, max(calibrator.peaks))
 
         plt.xlabel("Pixel (Spectral Direction)")
-- 
2.43.0

