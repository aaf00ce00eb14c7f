From 5f351a456b14313ce232e47b479b104d1b9dee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:03 +0000
Subject: [PATCH 01/43] fix: regularise only PSF frequencies that vanish, not
 purely imaginary ones

---
 properimage/operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 2194fbb..68683e0 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -188,8 +188,8 @@ def subtract(
     psf_ref_hat = _fftwn(p_r, s=ref.data.shape, norm="ortho")
     psf_new_hat = _fftwn(p_n, s=new.data.shape, norm="ortho")
 
-    psf_ref_hat[psf_ref_hat.real == 0] = eps
-    psf_new_hat[psf_new_hat.real == 0] = eps
+    psf_ref_hat[psf_ref_hat == 0] = eps
+    psf_new_hat[psf_new_hat == 0] = eps
 
     psf_ref_hat_conj = psf_ref_hat.conj()
     psf_new_hat_conj = psf_new_hat.conj()
-- 
2.43.0


From 7568b3288714e2ebf65eb4a3a4f07eb45c410251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:23 +0000
Subject: [PATCH 02/43] fix: centre the fitted PSF on non-square images (x is
 the second axis)

---
 properimage/operations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 68683e0..1daaae2 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -164,10 +164,10 @@ def subtract(
         p_r = psf_ref[1]
         p_n = psf_new[1]
 
-        p_r.x_mean = ref.data.data.shape[0] / 2.0
-        p_r.y_mean = ref.data.data.shape[1] / 2.0
-        p_n.x_mean = new.data.data.shape[0] / 2.0
-        p_n.y_mean = new.data.data.shape[1] / 2.0
+        p_r.x_mean = ref.data.data.shape[1] / 2.0
+        p_r.y_mean = ref.data.data.shape[0] / 2.0
+        p_n.x_mean = new.data.data.shape[1] / 2.0
+        p_n.y_mean = new.data.data.shape[0] / 2.0
         p_r.bounding_box = None
         p_n.bounding_box = None
 
-- 
2.43.0


From fd04e805d06c4753f026cd0a2b9c05eca29deaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:48 +0000
Subject: [PATCH 03/43] fix: carry the new image's mask through the alignment
 in subtract

---
 properimage/operations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 1daaae2..ec2c858 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -128,7 +128,9 @@ def subtract(
                 raise
 
     if align:
-        registrd, registrd_mask = aa.register(new.data, ref.data)
+        registrd, registrd_mask = aa.register(
+            new.data, ref.data, propagate_mask=True
+        )
         new._clean()
         #  should it be new = type(new)(  ?
         new = SI(
-- 
2.43.0


From 01125165d1972951a95ffb87f2c163e2e3c4de6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:48 +0000
Subject: [PATCH 04/43] fix: chunk_it delivers non-empty chunks, never more
 than asked

---
 properimage/utils.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index f571ad2..2a46a88 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -378,12 +378,9 @@ def chunk_it(seq, num):
     Sorted list.
     List of chunks containing the data splited in num parts.
     """
-    avg = len(seq) / float(num)
-    out = []
-    last = 0.0
-    while last < len(seq):
-        out.append(seq[int(last) : int(last + avg)])
-        last += avg
+    n = len(seq)
+    num = min(int(num), n)
+    out = [seq[i * n // num : (i + 1) * n // num] for i in range(num)]
     try:
         return sorted(out, reverse=True)
     except TypeError:
-- 
2.43.0


From a4f06f77d6126e2700a10d9c30a37c36679907fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 05/43] fix: guessing the mask keeps the processed pixels
 (gain, crop, type)

---
 properimage/single_image.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 93188c3..b8ac4f0 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -359,11 +359,11 @@ class SingleImage(object):
             # check the fits file and try to find it as an extension
             if self.attached_to == "PrimaryHDU":
                 logger.debug("Source is PrimaryHDU, masking invalid values")
-                self.__data = ma.masked_invalid(self.__img.data)
+                self.__data = ma.masked_invalid(self.__data)
 
             elif self.attached_to == "ndarray":
                 logger.debug("Source is ndarray, masking invalid values")
-                self.__data = ma.masked_invalid(self.__img)
+                self.__data = ma.masked_invalid(self.__data)
             elif self.attached_to == "HDUList":
                 if self.header["EXTEND"]:
                     logger.info(
@@ -384,7 +384,7 @@ class SingleImage(object):
                     )
                 else:
                     logger.debug("No extensions found, masking invalid values")
-                    self.__data = ma.masked_invalid(self.__img[0].data)
+                    self.__data = ma.masked_invalid(self.__data)
             # if a path is given where we find a fits file search on extensions
             else:
                 try:
-- 
2.43.0


From e4feb5c9dcc4595dd7a0f9c213c3fc3edda330ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 06/43] fix: crop accepts zero on either side of an axis

---
 properimage/single_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index b8ac4f0..583fb2e 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -264,7 +264,8 @@ class SingleImage(object):
         if not np.sum(self.crop) == 0.0:
             dx, dy = self.crop
             logger.info(f"Applying crop: dx={dx}, dy={dy}")
-            self.__data = self.__data[dx[0] : -dx[1], dy[0] : -dy[1]]
+            sx, sy = self.__data.shape
+            self.__data = self.__data[dx[0] : sx - dx[1], dy[0] : sy - dy[1]]
             logger.debug(f"Data shape after crop: {self.__data.shape}")
         logger.debug(f"Applying gain factor: {self.__gain}")
         self.__data = self.__data * self.__gain
-- 
2.43.0


From 8fab89d4a856215be7cd4826a000f3c6226e99ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 07/43] fix: border trimming removes exactly the all-zero outer
 rows and columns

---
 properimage/single_image.py | 55 +++++++------------------------------
 1 file changed, 10 insertions(+), 45 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 583fb2e..b6225c6 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -213,51 +213,16 @@ class SingleImage(object):
                 self.__data = ma.asarray(img.data).astype("<f4")
         if self.borders:
             logger.debug("Detecting and removing image borders")
-            sx, sy = self.__data.shape
-            line = self.__data.data[sx // 2, :]
-            pxsum = 0
-            for x, px in enumerate(line):
-                pxsum += px
-                if pxsum > 0.0:
-                    ldx = x
-                    break
-            for dx in range(ldx):
-                if not np.sum(self.__data.data[:dx, :]) == 0:
-                    ldx = dx
-                    break
-            pxsum = 0
-            for x, px in enumerate(np.flip(line, axis=0)):
-                pxsum += px
-                if pxsum > 0.0:
-                    rdx = sx - x
-                    break
-            for dx in range(x):
-                if not np.sum(self.__data.data[-dx - 1 :, :]) == 0:
-                    rdx = sx - dx
-                    break
-            col = self.__data.data[:, sy // 2]
-            pxsum = 0
-            for y, px in enumerate(col):
-                pxsum += px
-                if pxsum > 0.0:
-                    ldy = y
-                    break
-            for dy in range(ldy):
-                if not np.sum(self.__data.data[:, :dy]) == 0:
-                    ldy = dy
-                    break
-            pxsum = 0
-            for y, px in enumerate(np.flip(line, axis=0)):
-                pxsum += px
-                if pxsum > 0.0:
-                    rdy = sy - y
-                    break
-            for dy in range(y):
-                if not np.sum(self.__data.data[:, -dy - 1 :]) == 0:
-                    rdy = sy - dy
-                    break
-            logger.info(f"Cropping borders: x[{ldx}:{rdx}], y[{ldy}:{rdy}]")
-            self.__data = self.__data[ldx:rdx, ldy:rdy]
+            filled = self.__data.data != 0
+            rows = np.flatnonzero(filled.any(axis=1))
+            cols = np.flatnonzero(filled.any(axis=0))
+            if len(rows) > 0:
+                ldx, rdx = rows[0], rows[-1] + 1
+                ldy, rdy = cols[0], cols[-1] + 1
+                logger.info(
+                    f"Cropping borders: x[{ldx}:{rdx}], y[{ldy}:{rdy}]"
+                )
+                self.__data = self.__data[ldx:rdx, ldy:rdy]
             logger.debug(
                 f"Data shape after border removal: {self.__data.shape}"
             )
-- 
2.43.0


From c7e2d50e23726c011f32581bd1937756d09959f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 08/43] fix: refresh the S components when the zero point or
 inf_loss changes

---
 properimage/single_image.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index b6225c6..a535459 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1227,6 +1227,7 @@ class SingleImage(object):
         if (
             not hasattr(self, "_s_hat_comp")
             or self._s_hat_inf_loss != self.inf_loss
+            or self._s_hat_zp != self.zp
         ):
 
             a_fields, psf_basis = self.get_variable_psf()
@@ -1258,6 +1259,7 @@ class SingleImage(object):
 
             self._s_hat_comp = (self.zp / (var**2)) * s_hat
             self._s_hat_inf_loss = self.inf_loss
+            self._s_hat_zp = self.zp
 
         return self._s_hat_comp
 
@@ -1268,12 +1270,14 @@ class SingleImage(object):
         Uses the measured psf to calculate the matched filter S
         (from propercoadd), and is psf space variant capable.
         """
-        if not hasattr(self, "_s_component"):
+        if (
+            not hasattr(self, "_s_component")
+            or self._s_inf_loss != self.inf_loss
+            or self._s_zp != self.zp
+        ):
             self._s_component = _ifftwn(self.s_hat_comp, norm="ortho").real
             self._s_inf_loss = self.inf_loss
-
-        if self._s_inf_loss != self.inf_loss:
-            self._s_component = _ifftwn(self.s_hat_comp, norm="ortho").real
+            self._s_zp = self.zp
         return self._s_component
 
     @property
-- 
2.43.0


From 79c1e171a621305a451877e98cdebd9e7c4e45c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 09/43] fix: refresh the PSF normalisation image when inf_loss
 changes

---
 properimage/single_image.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index a535459..2cb685c 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1162,7 +1162,10 @@ class SingleImage(object):
 
         It uses the psf-basis elements and coefficients.
         """
-        if not hasattr(self, "_normal_image"):
+        if (
+            not hasattr(self, "_normal_image")
+            or self._normal_inf_loss != self.inf_loss
+        ):
             a_fields, psf_basis = self.get_variable_psf()
 
             if a_fields[0] is None:
@@ -1175,6 +1178,7 @@ class SingleImage(object):
                 for a, psf_i in zip(a_fields, psf_basis):
                     conv += convolve_scp(a(x, y), psf_i)
                 self._normal_image = conv
+            self._normal_inf_loss = self.inf_loss
         return self._normal_image
 
     @property
-- 
2.43.0


From 07a3a96f40c2604afb112f6bc1bf3b1b43b5dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 10/43] fix: transparency orders the magnitudes by image, as
 its design matrix

---
 properimage/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 2a46a88..de960f4 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -215,9 +215,9 @@ def transparency(images, master=None):
         )
 
         j = 0
-        for row in mastercat[mastercat["detected"]]:
-            for img in imglist:
-                cat = img.best_sources
+        for img in imglist:
+            cat = img.best_sources
+            for row in mastercat[mastercat["detected"]]:
                 imgfluxes = cat[cat["sourceid"] == row["sourceid"]]["flux"]
                 m[q + j] = -2.5 * np.log10(imgfluxes[0]) + 20.0
                 j += 1
-- 
2.43.0


From 81773fe8f036a24d2ca520cdcf3b7669221bb186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 11/43] fix: transparency renumbers the master catalogue on
 every call

---
 properimage/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index de960f4..35bd894 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -174,7 +174,7 @@ def transparency(images, master=None):
             dtypes=int,
         )
     except ValueError:
-        pass
+        mastercat["sourceid"] = np.arange(len(mastercat))
 
     detect = np.repeat(True, len(mastercat))
     #  Matching the sources
-- 
2.43.0


From 71fd096463b20d3e1f170d77f6aeff6eb9e64923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 12/43] fix: _matching keeps the first master source in its
 mask

---
 properimage/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 35bd894..1fa0d00 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -133,7 +133,7 @@ def _matching(master, cat, masteridskey=None, radius=1.5, masked=False):
                     IDs[i] = master[idkey][ind_o]
 
     if masked:
-        mask = IDs > 0
+        mask = IDs >= 0
         return (IDs, mask)
     return IDs
 
-- 
2.43.0


From 38604cd4ebe1d392b97455ad4894dd95149951b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 13/43] fix: interpolate over the cosmic rays that interped
 detects

---
 properimage/single_image.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 2cb685c..2eec3eb 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1295,34 +1295,32 @@ class SingleImage(object):
                 "Interpolating image to clean cosmic rays and NaN pixels"
             )
             kernel = Box2DKernel(10)  # Gaussian2DKernel(stddev=2.5) #
+            bkg_sub_img = self.bkg_sub_img
 
             logger.debug("Detecting cosmic rays with astroscrappy")
             crmask, _ = detect_cosmics(
-                indat=np.ascontiguousarray(self.bkg_sub_img.filled(-9999)),
-                inmask=self.bkg_sub_img.mask,
+                indat=np.ascontiguousarray(bkg_sub_img.filled(-9999)),
+                inmask=bkg_sub_img.mask,
                 sigclip=6.0,
                 cleantype="medmask",
             )
             cr_count = crmask.sum()
             logger.info(f"Cosmic rays detected: {cr_count} pixels")
 
-            self.bkg_sub_img.mask = np.ma.mask_or(
-                self.bkg_sub_img.mask, crmask
-            )
-            self.bkg_sub_img.mask = np.ma.mask_or(
-                self.bkg_sub_img.mask, np.isnan(self.bkg_sub_img)
-            )
-            nan_count = np.isnan(self.bkg_sub_img).sum()
+            bkg_sub_img.mask = np.ma.mask_or(bkg_sub_img.mask, crmask)
+            nan_mask = np.isnan(bkg_sub_img.data)
+            bkg_sub_img.mask = np.ma.mask_or(bkg_sub_img.mask, nan_mask)
+            nan_count = nan_mask.sum()
             if nan_count > 0:
                 logger.debug(f"Additional NaN pixels found: {nan_count}")
 
-            total_to_interpolate = self.bkg_sub_img.mask.sum()
+            total_to_interpolate = bkg_sub_img.mask.sum()
             logger.info(
                 f"Total pixels to interpolate: {total_to_interpolate} "
-                f"({100 * total_to_interpolate / self.bkg_sub_img.size:.2f}%)"
+                f"({100 * total_to_interpolate / bkg_sub_img.size:.2f}%)"
             )
 
-            img = self.bkg_sub_img.filled(np.nan)
+            img = bkg_sub_img.filled(np.nan)
             img_interp = interpolate_replace_nans(img, kernel, convolve=conv)
 
             iterations = 0
-- 
2.43.0


From dca813134248cbc1c4d5dd12ec10a9fb4a4fa45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 14/43] fix: airy_patron is finite at its centre

---
 properimage/simtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 76d8ae6..baa15fc 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -89,6 +89,8 @@ def _airy_func(rr, width, amplitude=1.0):
     (normalized) radius
     """
     r = float(rr) / width
+    if r == 0:
+        return amplitude
     return amplitude * (2.0 * sp.special.j1(r) / r) ** 2
 
 
-- 
2.43.0


From 7c90645b55cd82cb5189859611ada86f07a6b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 15/43] fix: delta_point pairs weights with positions, any
 iterable of them

---
 properimage/simtools.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index baa15fc..de1a8c2 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -212,13 +212,11 @@ def delta_point(N, center=True, xy=None, weights=None):
     if center:
         m[int(N / 2.0), int(N / 2.0)] = 1.0
     else:
+        xy = list(xy)
         if weights is None:
             weights = np.ones(shape=len(xy))
-        j = -1
-        for x, y in xy:
-            w = weights[j]
+        for (x, y), w in zip(xy, weights):
             m[int(x), int(y)] = 1.0 * w
-            j -= 1
     return m
 
 
-- 
2.43.0


From e5ad912a06634912c971fd41d38861352c746da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 16/43] fix: get_psf_xy works up to the image edges

---
 properimage/single_image.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 2eec3eb..d16cb5a 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1392,17 +1392,21 @@ class SingleImage(object):
 
         if a_fields[0] is not None:
             psf_at_xy = np.zeros_like(psf_basis[0])
-            delta = int((psf_at_xy.shape[0] - 1) / 2)
+            nx, ny = psf_at_xy.shape
             xp, yp = int(np.round(x)), int(np.round(y))
-            xmin = xp - delta
-            xmax = xp + delta + 1
-            ymin = yp - delta
-            ymax = yp + delta + 1
+            xmin = xp - (nx - 1) // 2
+            xmax = xmin + nx
+            ymin = yp - (ny - 1) // 2
+            ymax = ymin + ny
+            # beyond the edges the nearest value of the image is used
+            normal = np.pad(
+                self.normal_image, [(nx, nx), (ny, ny)], mode="edge"
+            )[xmin + nx : xmax + nx, ymin + ny : ymax + ny]
             for apsf, afield in zip(psf_basis, a_fields):
                 psf_at_xy += (
                     apsf
                     * afield(*np.mgrid[xmin:xmax, ymin:ymax])
-                    / self.normal_image[xmin:xmax, ymin:ymax]
+                    / normal
                 )
 
             return psf_at_xy / np.sum(psf_at_xy)
-- 
2.43.0


From dfd4f6422165f6dc8cdbeaa569d1265aa55e9d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 17/43] fix: store_img keeps real parts and masks for every
 input

---
 properimage/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 1fa0d00..bf4bec0 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -47,11 +47,11 @@ def store_img(img, path=None):
     Returns:
         HDUList: The astropy.io.fits.HDUList image
     """
-    if isinstance(img[0, 0], complex):
+    if np.iscomplexobj(img):
         img = img.real
 
     if isinstance(img, np.ma.core.MaskedArray):
-        mask = img.mask.astype("int")
+        mask = np.ma.getmaskarray(img).astype("int")
         data = img.data
         hdu_data = fits.PrimaryHDU(data)
         hdu_data.scale(type="float32")
-- 
2.43.0


From 436747bd90e5e7fd53890b4736d824d3c1d31d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 18/43] fix: really disable the strict star pick for few
 candidates

---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index d16cb5a..da56af1 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -762,7 +762,7 @@ class SingleImage(object):
                 logger.info(
                     f"{n_cand_srcs} candidates, disabling strict star pick"
                 )
-                self.strict_star_pick = False
+                self._strict_star_pick = False
 
             for row in self.best_sources:
                 position = (row["y"], row["x"])
-- 
2.43.0


From b431dded8dd11d36690e9e29c7246fa5de0b3478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 19/43] fix: cleaning removes every file of the stamp database

---
 properimage/single_image.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index da56af1..05f1f88 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -159,11 +159,11 @@ class SingleImage(object):
 
     def _clean(self):
         logger.info("cleaning... ")
-        try:
-            os.remove(self.dbname + ".dat")
-            os.remove(self.dbname + ".map")
-        except OSError:
-            logger.warning("Nothing to clean. (Or something has failed)")
+        for ext in (".dat", ".map"):
+            try:
+                os.remove(self.dbname + ext)
+            except OSError:
+                logger.warning("Nothing to clean. (Or something has failed)")
 
     @property
     def attached_to(self):
-- 
2.43.0


From 4bc7c358d310e8a073a7c9b6af391a8c23ee8537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 20/43] fix: pad star stamps by a whole number of pixels

---
 properimage/single_image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 05f1f88..b1144fa 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -807,8 +807,8 @@ class SingleImage(object):
                 sub_array_data -= np.median(sub_array_data[star_bg])
 
                 pad_dim = (
-                    (self.stamp_shape[0] - new_shape[0] + STAMP_PADSIZE) / 2,
-                    (self.stamp_shape[1] - new_shape[1] + STAMP_PADSIZE) / 2,
+                    (self.stamp_shape[0] - new_shape[0] + STAMP_PADSIZE) // 2,
+                    (self.stamp_shape[1] - new_shape[1] + STAMP_PADSIZE) // 2,
                 )
 
                 if not pad_dim == (0, 0):
-- 
2.43.0


From 0928c211d2627e350ce9db8687a5565b379bcdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 21/43] fix: normalising star stamps leaves the interpolated
 image alone

---
 properimage/single_image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index b1144fa..46d9503 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -799,7 +799,9 @@ class SingleImage(object):
 
                 new_shape = sub_array_data.shape
                 # Normalize to unit sum
-                sub_array_data += np.abs(np.min(sub_array_data))
+                sub_array_data = sub_array_data + np.abs(
+                    np.min(sub_array_data)
+                )
                 star_bg = np.where(
                     sub_array_data
                     < np.percentile(np.abs(sub_array_data), q=70)
-- 
2.43.0


From fd4a188203dfdf6a0bea835355e146bb7a2cb6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 22/43] fix: a stamp shape asked for after the PSF was measured
 is ignored

---
 properimage/single_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 46d9503..5a16de9 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -728,6 +728,7 @@ class SingleImage(object):
         if not hasattr(self, "_stamps_pos") or _cond:
             if _cond:
                 self.stamp_shape = self._shape
+                self._shape = None
             self.db = npdb.NumPyDB(self.dbname, mode="store")
             pos = []
             jj = 0
@@ -1143,7 +1144,7 @@ class SingleImage(object):
         arguments to return numpy array fields (for example a_fields[0](x, y)).
         These can be generated using `get_afield_domain`.
         """
-        if shape is not None:
+        if shape is not None and not hasattr(self, "_stamps_pos"):
             self._shape = shape
 
         updating = (inf_loss is not None) and (self.inf_loss != inf_loss)
-- 
2.43.0


From b1436a5c75be940cebfcf84c61194d17bcde1f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 23/43] fix: start the flux-scale search within its bounds

---
 properimage/operations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index ec2c858..6f09010 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -228,7 +228,7 @@ def subtract(
                 return chi
 
             ti = time.time()
-            vec0 = [b, 0.0, 0.0]
+            vec0 = [np.clip(b, 0.1, 10.0), 0.0, 0.0]
             bounds = ([0.1, -0.9, -0.9], [10.0, 0.9, 0.9])
             solv_beta = optimize.least_squares(
                 cost,
@@ -301,7 +301,11 @@ def subtract(
 
             ti = time.time()
             solv_beta = optimize.least_squares(
-                F, b, ftol=1e-8, bounds=[0.1, 10.0], jac="2-point"
+                F,
+                np.clip(b, 0.1, 10.0),
+                ftol=1e-8,
+                bounds=[0.1, 10.0],
+                jac="2-point",
             )
 
             tf = time.time()
-- 
2.43.0


From cf85f7372920a967b6a38aac2873c2015c3f628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:03 +0000
Subject: [PATCH 24/43] fix: an HDUList without a mask extension gets its
 invalid pixels masked

---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 5a16de9..1b6f561 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -331,7 +331,7 @@ class SingleImage(object):
                 logger.debug("Source is ndarray, masking invalid values")
                 self.__data = ma.masked_invalid(self.__data)
             elif self.attached_to == "HDUList":
-                if self.header["EXTEND"]:
+                if self.header.get("EXTEND") and len(self.__img) > 1:
                     logger.info(
                         "HDUList has extensions, loading mask from extension 1"
                     )
-- 
2.43.0


From 361aca1965013d54e0431dd0bb15ccd296e3bd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:03 +0000
Subject: [PATCH 25/43] fix: mask the invalid pixels of files without a mask
 extension

---
 properimage/single_image.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 1b6f561..f8cf451 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -358,6 +358,8 @@ class SingleImage(object):
                         f"Attempting to open FITS file: {self.attached_to}"
                     )
                     ff = fits.open(self.attached_to)
+                    if not ff[0].header.get("EXTEND"):
+                        self.__data = ma.masked_invalid(self.__data)
                     if "EXTEND" in ff[0].header.keys():
                         if ff[0].header["EXTEND"]:
                             try:
-- 
2.43.0


From fbaefabb738938d21b1c89466e27577b91da7802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:03 +0000
Subject: [PATCH 26/43] fix: full-size masks are trimmed and cropped with their
 image

---
 properimage/single_image.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index f8cf451..e154321 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -211,6 +211,8 @@ class SingleImage(object):
                     f"Extracting data from PrimaryHDU, shape: {img.data.shape}"
                 )
                 self.__data = ma.asarray(img.data).astype("<f4")
+        self.__full_shape = self.__data.shape
+        top, left = 0, 0
         if self.borders:
             logger.debug("Detecting and removing image borders")
             filled = self.__data.data != 0
@@ -223,6 +225,7 @@ class SingleImage(object):
                     f"Cropping borders: x[{ldx}:{rdx}], y[{ldy}:{rdy}]"
                 )
                 self.__data = self.__data[ldx:rdx, ldy:rdy]
+                top, left = ldx, ldy
             logger.debug(
                 f"Data shape after border removal: {self.__data.shape}"
             )
@@ -231,11 +234,22 @@ class SingleImage(object):
             logger.info(f"Applying crop: dx={dx}, dy={dy}")
             sx, sy = self.__data.shape
             self.__data = self.__data[dx[0] : sx - dx[1], dy[0] : sy - dy[1]]
+            top, left = top + dx[0], left + dy[0]
             logger.debug(f"Data shape after crop: {self.__data.shape}")
+        self.__window = tuple(
+            slice(start, start + size)
+            for start, size in zip((top, left), self.__data.shape)
+        )
         logger.debug(f"Applying gain factor: {self.__gain}")
         self.__data = self.__data * self.__gain
         self.__data.soften_mask()
 
+    def _in_window(self, mask):
+        """Trim and crop a mask of the full image as the image was."""
+        if mask.shape == self.__full_shape:
+            return mask[self.__window]
+        return mask
+
     @property
     def gain(self):
         """Get gain property value."""
@@ -296,13 +310,17 @@ class SingleImage(object):
                 logger.debug(
                     f"Mask median is 0, using >= threshold ({self.maskthresh})"
                 )
-                self.__data.mask = fitsmask >= self.maskthresh
+                self.__data.mask = self._in_window(
+                    fitsmask >= self.maskthresh
+                )
             else:
                 logger.debug(
                     f"Mask median is non-zero, using <= threshold "
                     f"({self.maskthresh})"
                 )
-                self.__data.mask = fitsmask <= self.maskthresh
+                self.__data.mask = self._in_window(
+                    fitsmask <= self.maskthresh
+                )
             logger.info(
                 f"Mask loaded: {self.__data.mask.sum()} pixels masked ("
                 f"{100 * self.__data.mask.sum() / self.__data.mask.size:.2f}%)"
@@ -312,7 +330,7 @@ class SingleImage(object):
             logger.debug(
                 f"Using provided numpy array as mask, shape: {mask.shape}"
             )
-            self.__data.mask = mask
+            self.__data.mask = self._in_window(mask)
             logger.info(
                 f"Applied array mask: {self.__data.mask.sum()} pixels masked ("
                 f"{100 * self.__data.mask.sum() / self.__data.mask.size:.2f}%)"
@@ -341,9 +359,13 @@ class SingleImage(object):
                         f"{np.median(fitsmask)}"
                     )
                     if np.median(fitsmask) == 0:
-                        self.__data.mask = fitsmask >= self.maskthresh
+                        self.__data.mask = self._in_window(
+                            fitsmask >= self.maskthresh
+                        )
                     else:
-                        self.__data.mask = fitsmask <= self.maskthresh
+                        self.__data.mask = self._in_window(
+                            fitsmask <= self.maskthresh
+                        )
                     logger.info(
                         f"Extension mask applied: {self.__data.mask.sum()} "
                         "pixels masked"
@@ -373,11 +395,11 @@ class SingleImage(object):
                                     f"{np.median(fitsmask)}"
                                 )
                                 if np.median(fitsmask) == 0:
-                                    self.__data.mask = (
+                                    self.__data.mask = self._in_window(
                                         fitsmask >= self.maskthresh
                                     )
                                 else:
-                                    self.__data.mask = (
+                                    self.__data.mask = self._in_window(
                                         fitsmask <= self.maskthresh
                                     )
                                 logger.info(
-- 
2.43.0


From b9064544147d8495584b20253058414a6b7bcaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 27/43] fix: sources can be updated before they were first
 measured

---
 properimage/single_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index e154321..9edefd5 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -730,7 +730,8 @@ class SingleImage(object):
 
     def update_sources(self, new_sources=None):
         """Update best source property."""
-        del self._best_sources
+        if hasattr(self, "_best_sources"):
+            del self._best_sources
         if new_sources is None:
             # Force evaluation of lazy properties to trigger computation
             _ = self.best_sources
-- 
2.43.0


From 1aaa84887437a4132182b0c03917e8533d0b525b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 28/43] fix: keep no more PSF components than stars when all
 information is kept

---
 properimage/single_image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 9edefd5..f142316 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1041,6 +1041,7 @@ class SingleImage(object):
                     break
 
             #  Build psf basis
+            cut = min(cut, len(power))
             n_basis = abs(cut)
             xs = vech[:, -cut:]
             psf_basis = []
-- 
2.43.0


From 00558df8655d22a593bc0accfe68ce9bcf27a921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 29/43] fix: mock PSFs cover the whole array, centred, for any
 size and width

---
 properimage/simtools.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index de1a8c2..a0dba8c 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -44,15 +44,19 @@ def Psf(N, X_FWHM, Y_FWHM=0, theta=0):
     if Y_FWHM == 0:
         Y_FWHM = X_FWHM
 
-    a = np.zeros((int(N), int(N)))
+    N = int(N)
+    a = np.zeros((N, N))
     mu = (N - 1) / 2.0
     sigma_x = X_FWHM / 2.335
     sigma_y = Y_FWHM / 2.335
     sigma = max(sigma_x, sigma_y)
-    tail_len = min(int(5 * sigma), N / 2)
-    mu_int = int(mu)
-    for i in range(int(mu_int - tail_len), int(mu_int + tail_len), 1):
-        for j in range(int(mu_int - tail_len), int(mu_int + tail_len), 1):
+    tail_len = max(int(5 * sigma), 1)
+    pixels = range(
+        max(0, int(np.ceil(mu - tail_len))),
+        min(N, int(np.floor(mu + tail_len)) + 1),
+    )
+    for i in pixels:
+        for j in pixels:
             a[i, j] = stats.norm.pdf(
                 i, loc=mu, scale=sigma_x
             ) * stats.norm.pdf(j, loc=mu, scale=sigma_y)
@@ -74,9 +78,11 @@ def astropy_Psf(N, FWHM):
     model = models.Gaussian2D(
         amplitude=1.0, x_mean=mu, y_mean=mu, x_stddev=sigma, y_stddev=sigma
     )
-    tail_len = int(7 * sigma)
-    mu_int = int(mu)
-    i = range(mu_int - tail_len, mu_int + tail_len, 1)
+    tail_len = max(int(7 * sigma), 1)
+    i = range(
+        max(0, int(np.ceil(mu - tail_len))),
+        min(N, int(np.floor(mu + tail_len)) + 1),
+    )
     for ii, jj in cartesian_product([i, i]):
         psf[ii, jj] = model(ii, jj)
     return psf / np.sum(psf)
-- 
2.43.0


From cf745292583300e644b2d5c689ad3b8716b9faf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 30/43] fix: the Sersic galaxy fills the last row and column
 too

---
 properimage/simtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index a0dba8c..a1d017d 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -166,8 +166,8 @@ def gal_sersic(N, n):
     # radio de escala, tomado como un
     # sexto del ancho de la imagen para que la galaxia no ocupe toda la imagen
     R_e = (N - 1) / 6.0
-    for i in range(N - 1):
-        for j in range(N - 1):
+    for i in range(N):
+        for j in range(N):
             r_pix = np.sqrt((i - mu) ** 2 + (j - mu) ** 2)
             if r_pix <= (4.0 * R_e):
                 gal[i, j] = perfilsersic(R_e, 10, n, r_pix)
-- 
2.43.0


From 4e5b1fca50be4bf4a13ca74f0f52044badfc3c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 31/43] fix: honour the standard deviation given for gaussian
 sky noise

---
 properimage/simtools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index a1d017d..4b37a6c 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -272,7 +272,8 @@ def image(
 
     elif bkg_pdf == "gaussian":
         mean = 0
-        std = b / SN
+        if std is None:
+            std = b / SN
         C = random.normal(mean, std, (N, N))
     return C + IM + bias
 
-- 
2.43.0


From be86fa781dbace6653aeb7de2cdb8a8c5c3ad1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 32/43] fix: cartesian products keep the type all coordinates
 need

---
 properimage/simtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 4b37a6c..8da6d7e 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -187,7 +187,7 @@ def cartesian_product(arrays):
     broadcastable = np.ix_(*arrays)
     broadcasted = np.broadcast_arrays(*broadcastable)
     rows, cols = reduce(np.multiply, broadcasted[0].shape), len(broadcasted)
-    out = np.empty(rows * cols, dtype=broadcasted[0].dtype)
+    out = np.empty(rows * cols, dtype=np.result_type(*broadcasted))
     start, end = 0, rows
     for a in broadcasted:
         out[start:end] = a.reshape(-1)
-- 
2.43.0


From 44db8f1ff6312036d9e3ccc2c915d68c6e144ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 33/43] fix: subtracting with alignment keeps the star database
 of its input

The caller's image was cleaned once aligned; using it again afterwards
(get_variable_psf, another subtraction) failed with FileNotFoundError.
---
 properimage/operations.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 6f09010..3a49b16 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -131,7 +131,6 @@ def subtract(
         registrd, registrd_mask = aa.register(
             new.data, ref.data, propagate_mask=True
         )
-        new._clean()
         #  should it be new = type(new)(  ?
         new = SI(
             registrd[: ref.data.shape[0], : ref.data.shape[1]],
-- 
2.43.0


From a5b543efc0a54acf34c72f2af97f31a88b50535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 34/43] fix: coadd leaves the list it is given alone

Arrays in the caller's list were replaced by SingleImage instances, and
a tuple of arrays failed with TypeError.
---
 properimage/operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 3a49b16..db44b51 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -487,9 +487,9 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
         f"Alignment: {align}, inf_loss: {inf_loss}, n_procs: {n_procs}"
     )
 
-    for i_img, animg in enumerate(si_list):
-        if not isinstance(animg, si):
-            si_list[i_img] = si(animg)
+    si_list = [
+        animg if isinstance(animg, si) else si(animg) for animg in si_list
+    ]
 
     if align:
         logger.info("Aligning images for coadd")
-- 
2.43.0


From 05478c3d0ad1c76985ffc91a6a873e82a059b7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 35/43] fix: honour the contour options given to autopsf

iso_kw was always overridden with the defaults; the colorbar options of
the caller were modified in place.
---
 properimage/plot.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index c5f84c9..0e466f3 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -230,10 +230,12 @@ class Plot:
 
         kwargs.setdefault("interpolation", "none")
 
-        iso_kw = iso_kw or {}
-        iso_kw = {"colors": "black", "alpha": 0.5}
+        iso_kw = dict(iso_kw or {})
+        if "cmap" not in iso_kw:
+            iso_kw.setdefault("colors", "black")
+        iso_kw.setdefault("alpha", 0.5)
 
-        cmap_kw = cmap_kw or {}
+        cmap_kw = dict(cmap_kw or {})
         cmap_kw.setdefault("shrink", 0.85)
 
         title_tpl = r"$\sum p_{j:d} = {sum:4.3e}$"
@@ -290,7 +292,7 @@ class Plot:
                 f"You must provide at least {N} axs. Found {len(axs)}"
             )
 
-        cmap_kw = cmap_kw or {}
+        cmap_kw = dict(cmap_kw or {})
         cmap_kw.setdefault("shrink", 0.75)
         cmap_kw.setdefault("aspect", 30)
 
-- 
2.43.0


From 060cc3ad0c9a74e43a7c06de30fa1b077c92eb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 36/43] fix: contours of oblong psf stamps

The contour axes of autopsf(iso=True) were swapped, which failed on
stamps that are not square.
---
 properimage/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 0e466f3..8f2e6da 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -226,7 +226,7 @@ class Plot:
                 f"You must provide at least {N} axs. Found {len(axs)}"
             )
 
-        xsh, ysh = psf_basis[0].shape
+        ysh, xsh = psf_basis[0].shape
 
         kwargs.setdefault("interpolation", "none")
 
-- 
2.43.0


From a073c8aec52c79584b47f07b40b7588de19cc180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 37/43] fix: refuse a single axes for several psf components
 with ValueError

The message counted the axes with len(), a TypeError for one Axes.
---
 properimage/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 8f2e6da..afe7fd4 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -223,7 +223,7 @@ class Plot:
 
         if N > np.size(axs):
             raise ValueError(
-                f"You must provide at least {N} axs. Found {len(axs)}"
+                f"You must provide at least {N} axs. Found {np.size(axs)}"
             )
 
         ysh, xsh = psf_basis[0].shape
@@ -289,7 +289,7 @@ class Plot:
 
         if N > np.size(axs):
             raise ValueError(
-                f"You must provide at least {N} axs. Found {len(axs)}"
+                f"You must provide at least {N} axs. Found {np.size(axs)}"
             )
 
         cmap_kw = dict(cmap_kw or {})
-- 
2.43.0


From 2697e7be3ed8f7fcc02f49fa61dbd257df7eb0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 38/43] fix: plot the psf of images with a gaussian psf

These deliver a render followed by its model, and the model was plotted
as a second component.
---
 properimage/plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index afe7fd4..f05be05 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -193,7 +193,11 @@ class Plot:
         **kwargs,
     ):
         """Plot autopsf basis components."""
-        _, psf_basis = self.si.get_variable_psf(inf_loss=inf_loss, shape=shape)
+        a_fields, psf_basis = self.si.get_variable_psf(
+            inf_loss=inf_loss, shape=shape
+        )
+        # a gaussian psf is delivered as its render, followed by its model
+        psf_basis = psf_basis[: len(a_fields)]
 
         # here we plot
         N = len(psf_basis)
-- 
2.43.0


From 5f3b06b894f68604d9b165891bdd79291eae734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 39/43] fix: plot_R takes the real part of complex coadds of
 any precision

A masked first pixel or single precision hid that the array is complex.
---
 properimage/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index f05be05..3c9a17d 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -128,7 +128,7 @@ def plot_R(R, path=None, nbook=False):
     -------
     ax : matplotlib axes
     """
-    if isinstance(R[0, 0], complex):
+    if np.iscomplexobj(R):
         R = R.real
     if isinstance(R, np.ma.masked_array):
         R = R.filled()
-- 
2.43.0


From 61532715927f5130cbdc874fc676d7155658e00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 40/43] fix: stamps of stars in the image's corners stay finite

Where most of a stamp lies beyond the image and no pixel of the star is
below the value put there, the background of the stamp was the median of
nothing, and one such star made the whole PSF NaN.
---
 properimage/single_image.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index f142316..c91ec61 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -832,6 +832,11 @@ class SingleImage(object):
                     sub_array_data
                     < np.percentile(np.abs(sub_array_data), q=70)
                 )
+                if len(star_bg[0]) == 0:
+                    # most pixels hold the lowest value
+                    star_bg = np.where(
+                        sub_array_data == np.min(sub_array_data)
+                    )
                 sub_array_data -= np.median(sub_array_data[star_bg])
 
                 pad_dim = (
-- 
2.43.0


From e06854742e2a9d155618e648ef9b1d68babecc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 41/43] fix: the mask of a difference or coadd always has the
 size of the image

np.ma.mask_or shrinks a mask without bad pixels to a bare False, so clean
images gave no mask array although one is documented; the sequential coadd
of one image also handed out the image's own mask.
---
 properimage/operations.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index db44b51..5d06f1b 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -146,7 +146,7 @@ def subtract(
         raise ValueError("N and R arrays are of different size")
 
     t0 = time.time()
-    mix_mask = np.ma.mask_or(new.data.mask, ref.data.mask)
+    mix_mask = np.ma.mask_or(new.data.mask, ref.data.mask, shrink=False)
 
     zps, meanmags = u.transparency([ref, new])
     ref.zp = zps[0]
@@ -455,7 +455,7 @@ def process_chunk_joblib(chunk, global_shape):
             psf_hat_sum,
             out=psf_hat_sum,
         )
-        mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask)
+        mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask, shrink=False)
     return S_hat.real, S_hat.imag, psf_hat_sum.real, psf_hat_sum.imag, mix_mask
 
 
@@ -545,7 +545,7 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
             np.add(S_hat_imag, S_hat.imag, out=S_hat.imag)
             np.add(psf_hat_sum_real, P_hat.real, out=P_hat.real)
             np.add(psf_hat_sum_imag, P_hat.imag, out=P_hat.imag)
-            mix_mask = np.ma.mask_or(mix_mask, mask)
+            mix_mask = np.ma.mask_or(mix_mask, mask, shrink=False)
 
         logger.info("Computing final coadd image")
         P_r_hat = np.sqrt(P_hat)
@@ -556,7 +556,7 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
         logger.info("Using sequential processing (single thread)")
         S_hat = np.zeros(global_shape, dtype=np.complex128)
         P_hat = np.zeros(global_shape, dtype=np.complex128)
-        mix_mask = img_list[0].data.mask
+        mix_mask = np.zeros(global_shape, dtype=bool)
 
         ti = time.time()
         for an_img in img_list:
@@ -566,7 +566,9 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
                 P_hat,
                 out=P_hat,
             )
-            mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask)
+            mix_mask = np.ma.mask_or(
+                mix_mask, an_img.data.mask, shrink=False
+            )
         tf = time.time()
         logger.info(
             f"Sequential processing completed in {tf - ti:.2f} seconds"
-- 
2.43.0


From 674de55716bd93a25cd85c458ce99f8e7954231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 42/43] fix: the background difference follows the trial shift
 along both axes

np.roll without an axis rolls the flattened array by the sum of the two
shifts, so the fitted shift was judged against a misplaced background.
---
 properimage/operations.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 5d06f1b..b007fa9 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -218,7 +218,11 @@ def subtract(
                 b_n = (
                     _ifftwn(dhn, norm="ortho")
                     - _ifftwn(fourier_shift(dhr, (dx, dy)), norm="ortho") * b
-                    - np.roll(gammap, (int(round(dx)), int(round(dy))))
+                    - np.roll(
+                        gammap,
+                        (int(round(dx)), int(round(dy))),
+                        axis=(0, 1),
+                    )
                 )
                 chi = np.ma.MaskedArray(b_n.real, mask=mix_mask, fill_value=0)
                 chi = chi[OPT_BORDER:-OPT_BORDER, OPT_BORDER:-OPT_BORDER]
@@ -332,7 +336,11 @@ def subtract(
                 b_n = (
                     _ifftwn(dhn, norm="ortho")
                     - _ifftwn(fourier_shift(dhr, (dx, dy)), norm="ortho") * b
-                    - np.roll(gammap, (int(round(dx)), int(round(dy))))
+                    - np.roll(
+                        gammap,
+                        (int(round(dx)), int(round(dy))),
+                        axis=(0, 1),
+                    )
                 )
                 chi = np.ma.MaskedArray(b_n.real, mask=mix_mask, fill_value=0)
                 chi = chi[OPT_BORDER:-OPT_BORDER, OPT_BORDER:-OPT_BORDER]
-- 
2.43.0


From f7682f4702153d8f0a75f881153a312d037947c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:24 +0000
Subject: [PATCH 43/43] fix: threads sharing an image could meet half stored S
 components

---
 properimage/single_image.py | 48 +++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index c91ec61..5de16b5 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1196,24 +1196,24 @@ class SingleImage(object):
 
         It uses the psf-basis elements and coefficients.
         """
-        if (
-            not hasattr(self, "_normal_image")
-            or self._normal_inf_loss != self.inf_loss
-        ):
+        # stored in one assignment: threads may share an image
+        stored = getattr(self, "_normal_image", None)
+        if stored is None or stored[0] != self.inf_loss:
             a_fields, psf_basis = self.get_variable_psf()
 
             if a_fields[0] is None:
                 a = np.ones_like(self.data.data)
-                self._normal_image = convolve_fft(a, psf_basis[0])
+                normal = convolve_fft(a, psf_basis[0])
 
             else:
                 x, y = self.get_afield_domain()
                 conv = np.zeros_like(self.data.data)
                 for a, psf_i in zip(a_fields, psf_basis):
                     conv += convolve_scp(a(x, y), psf_i)
-                self._normal_image = conv
-            self._normal_inf_loss = self.inf_loss
-        return self._normal_image
+                normal = conv
+            stored = (self.inf_loss, normal)
+            self._normal_image = stored
+        return stored[1]
 
     @property
     def min_sources(self):
@@ -1262,11 +1262,9 @@ class SingleImage(object):
     @property
     def s_hat_comp(self):
         """Get the fourier transform of S image."""
-        if (
-            not hasattr(self, "_s_hat_comp")
-            or self._s_hat_inf_loss != self.inf_loss
-            or self._s_hat_zp != self.zp
-        ):
+        # stored in one assignment: threads may share an image
+        stored = getattr(self, "_s_hat_comp", None)
+        if stored is None or stored[:2] != (self.inf_loss, self.zp):
 
             a_fields, psf_basis = self.get_variable_psf()
 
@@ -1295,11 +1293,11 @@ class SingleImage(object):
                     conv = fourier_shift(conv, (+dx, +dy))
                     np.add(conv, s_hat, out=s_hat)
 
-            self._s_hat_comp = (self.zp / (var**2)) * s_hat
-            self._s_hat_inf_loss = self.inf_loss
-            self._s_hat_zp = self.zp
+            s_hat = (self.zp / (var**2)) * s_hat
+            stored = (self.inf_loss, self.zp, s_hat)
+            self._s_hat_comp = stored
 
-        return self._s_hat_comp
+        return stored[2]
 
     @property
     def s_component(self):
@@ -1308,15 +1306,13 @@ class SingleImage(object):
         Uses the measured psf to calculate the matched filter S
         (from propercoadd), and is psf space variant capable.
         """
-        if (
-            not hasattr(self, "_s_component")
-            or self._s_inf_loss != self.inf_loss
-            or self._s_zp != self.zp
-        ):
-            self._s_component = _ifftwn(self.s_hat_comp, norm="ortho").real
-            self._s_inf_loss = self.inf_loss
-            self._s_zp = self.zp
-        return self._s_component
+        # stored in one assignment: threads may share an image
+        stored = getattr(self, "_s_component", None)
+        if stored is None or stored[:2] != (self.inf_loss, self.zp):
+            s_component = _ifftwn(self.s_hat_comp, norm="ortho").real
+            stored = (self.inf_loss, self.zp, s_component)
+            self._s_component = stored
+        return stored[2]
 
     @property
     def interped(self):
-- 
2.43.0

