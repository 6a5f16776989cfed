From 8e944a299f57d3be9882d64fbcb7b6285d8a8c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 01/17] fix: state the real number of data lines in the SWMF
 header

Each data line is its own list, so the length of the first list was always one.
---
 starwinds_magnetogram/reader_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/reader_writer.py b/starwinds_magnetogram/reader_writer.py
index 6a4d09b..07c193e 100644
--- a/starwinds_magnetogram/reader_writer.py
+++ b/starwinds_magnetogram/reader_writer.py
@@ -112,7 +112,7 @@ def write_magnetogram_file(coefficient_sets, file_name, degree_max=None, order_m
 
 
     if write_swmf_header:
-        header_lines = create_swmf_header(file_name, len(coefficient_data_lines[0]), degree_max,
+        header_lines = create_swmf_header(file_name, len(coefficient_data_lines), degree_max,
                                     carrington_rotation_number=0, dlon=0.0)
     else:
         header_lines = ["Output of %s" % __file__, "Order:%d" % degree_max]
-- 
2.43.0


From 68079060e6f7106e1883fbc38391891420a0bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 02/17] fix: replace a magnetogram file only when its new
 content is complete

A full disk, a crash or an interrupt during the write destroyed the previous file and left a truncated one, and a
concurrent reader could see a part of the file.
---
 starwinds_magnetogram/reader_writer.py | 38 +++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/reader_writer.py b/starwinds_magnetogram/reader_writer.py
index 07c193e..78db49c 100644
--- a/starwinds_magnetogram/reader_writer.py
+++ b/starwinds_magnetogram/reader_writer.py
@@ -1,6 +1,10 @@
+import contextlib
 import numpy as np
 import cmath
 import logging
+import os
+import shutil
+import uuid
 
 log = logging.getLogger(__name__)
 
@@ -117,7 +121,7 @@ def write_magnetogram_file(coefficient_sets, file_name, degree_max=None, order_m
     else:
         header_lines = ["Output of %s" % __file__, "Order:%d" % degree_max]
 
-    with open(file_name, 'w') as f:
+    with _replace_when_complete(file_name) as f:
         f.write("\n".join(header_lines))
         f.write("\n")
         for data_lines in coefficient_data_lines:
@@ -127,6 +131,38 @@ def write_magnetogram_file(coefficient_sets, file_name, degree_max=None, order_m
     log.info("Finished writing magnetogram file \"%s\"." % file_name)
 
 
+@contextlib.contextmanager
+def _replace_when_complete(file_name):
+    """
+    Open a text file for writing. What is written appears under file_name only when all of it has reached the disk;
+    until then, and if anything goes wrong, file_name keeps its previous content (or stays absent).
+    :param file_name: destination; a symbolic link is followed.
+    """
+    target = os.path.realpath(file_name)
+
+    if os.path.exists(target) and not os.path.isfile(target):
+        # Devices and pipes (e.g. /dev/stdout) cannot be replaced; directories give the usual error here.
+        with open(file_name, 'w') as f:
+            yield f
+        return
+
+    if os.path.exists(target) and not os.access(target, os.W_OK):
+        raise PermissionError(f"Magnetogram file {file_name} is not writable.")
+
+    temporary = os.path.join(os.path.dirname(target), f".{uuid.uuid4().hex}.part")
+    try:
+        with open(temporary, 'x') as f:
+            yield f
+            f.flush()
+            os.fsync(f.fileno())
+        if os.path.exists(target):
+            shutil.copymode(target, temporary)
+        os.replace(temporary, target)
+    finally:
+        with contextlib.suppress(OSError):
+            os.unlink(temporary)  # Fails, as it should, if the file has been renamed.
+
+
 def create_swmf_header(file_name="Default-file-name", num_data_lines=496, max_degree=30,
                        carrington_rotation_number=2077, dlon=0.0):
     """Add new style SWMF file header. The header looks like this
-- 
2.43.0


From 2195087483f98a970916c3b42751849c3be61751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:30 +0000
Subject: [PATCH 03/17] fix: refuse to convert a magnetogram onto itself under
 another name

---
 starwinds_magnetogram/bin/convert_magnetogram.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/bin/convert_magnetogram.py b/starwinds_magnetogram/bin/convert_magnetogram.py
index 4b563fd..aaa813f 100644
--- a/starwinds_magnetogram/bin/convert_magnetogram.py
+++ b/starwinds_magnetogram/bin/convert_magnetogram.py
@@ -104,12 +104,22 @@ def _make_output_filename(input_file, output_name, postfix):
         if os.path.exists(output_name):
             raise ValueError(f"Output file {output_name} already exists. Please specify a different output file name.")
 
-    if input_file == output_name:
+    if _is_same_file(input_file, output_name):
         raise ValueError("Input and output file names are the same. Please provide a (different) output file name.")
 
     return output_name
 
 
+def _is_same_file(file_name, other_file_name):
+    """
+    True if both names denote the same existing file, also by different spellings or links.
+    """
+    try:
+        return os.path.samefile(file_name, other_file_name)
+    except FileNotFoundError:
+        return file_name == other_file_name
+
+
 if __name__ == "__main__":
     main()
 
-- 
2.43.0


From 5fbc0a278eae167d2bf55a4982154d57c92f743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:30 +0000
Subject: [PATCH 04/17] fix: let the system resolve the destination directory
 of a magnetogram

---
 starwinds_magnetogram/reader_writer.py | 30 ++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/starwinds_magnetogram/reader_writer.py b/starwinds_magnetogram/reader_writer.py
index 78db49c..a2c1990 100644
--- a/starwinds_magnetogram/reader_writer.py
+++ b/starwinds_magnetogram/reader_writer.py
@@ -1,9 +1,10 @@
 import contextlib
 import numpy as np
 import cmath
+import errno
 import logging
 import os
-import shutil
+import stat
 import uuid
 
 log = logging.getLogger(__name__)
@@ -138,15 +139,20 @@ def _replace_when_complete(file_name):
     until then, and if anything goes wrong, file_name keeps its previous content (or stays absent).
     :param file_name: destination; a symbolic link is followed.
     """
-    target = os.path.realpath(file_name)
+    target = _follow_links(os.fsdecode(file_name))
 
-    if os.path.exists(target) and not os.path.isfile(target):
+    try:
+        mode = os.stat(target).st_mode
+    except FileNotFoundError:
+        mode = None
+
+    if mode is not None and not stat.S_ISREG(mode):
         # Devices and pipes (e.g. /dev/stdout) cannot be replaced; directories give the usual error here.
         with open(file_name, 'w') as f:
             yield f
         return
 
-    if os.path.exists(target) and not os.access(target, os.W_OK):
+    if mode is not None and not os.access(target, os.W_OK):
         raise PermissionError(f"Magnetogram file {file_name} is not writable.")
 
     temporary = os.path.join(os.path.dirname(target), f".{uuid.uuid4().hex}.part")
@@ -155,14 +161,26 @@ def _replace_when_complete(file_name):
             yield f
             f.flush()
             os.fsync(f.fileno())
-        if os.path.exists(target):
-            shutil.copymode(target, temporary)
+        if mode is not None:
+            os.chmod(temporary, stat.S_IMODE(mode))
         os.replace(temporary, target)
     finally:
         with contextlib.suppress(OSError):
             os.unlink(temporary)  # Fails, as it should, if the file has been renamed.
 
 
+def _follow_links(file_name):
+    """
+    Get the path of the file that opening file_name would open or create. Unlike os.path.realpath this leaves it to
+    the system to resolve the directories, so "missing/../file" is an error here and not another name for "file".
+    """
+    for _ in range(40):
+        if not os.path.islink(file_name):
+            return file_name
+        file_name = os.path.join(os.path.dirname(file_name), os.readlink(file_name))
+    raise OSError(errno.ELOOP, os.strerror(errno.ELOOP), file_name)
+
+
 def create_swmf_header(file_name="Default-file-name", num_data_lines=496, max_degree=30,
                        carrington_rotation_number=2077, dlon=0.0):
     """Add new style SWMF file header. The header looks like this
-- 
2.43.0


From 21079b3b3f9779ff8b337eec57ab483ada87266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 05/17] fix: never replace an existing file with a magnetogram
 that was named automatically

---
 .../bin/convert_magnetogram.py                | 12 +++++--
 starwinds_magnetogram/reader_writer.py        | 34 ++++++++++++++++---
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/starwinds_magnetogram/bin/convert_magnetogram.py b/starwinds_magnetogram/bin/convert_magnetogram.py
index aaa813f..f45a561 100644
--- a/starwinds_magnetogram/bin/convert_magnetogram.py
+++ b/starwinds_magnetogram/bin/convert_magnetogram.py
@@ -52,11 +52,13 @@ def no_conversion(input_file, output_name=None, degree_max=None, write_swmf_head
     if pfss_coefficients.default_coefficients.shape != (1,):
         raise IndexError(f"Incorrect shape for PFSS formatted file {input_file}.")
 
+    overwrite = output_name is not None
     output_name = _make_output_filename(input_file, output_name, postfix="wso")
     reader_writer.write_magnetogram_file(pfss_coefficients, file_name=output_name,
                                          order_min=0,
                                          degree_max=degree_max, 
-                                         write_swmf_header=write_swmf_header)
+                                         write_swmf_header=write_swmf_header,
+                                         overwrite=overwrite)
 
 
 def convert_zdi_to_pfss(input_file, output_name=None, degree_max=None, write_swmf_header=False):
@@ -68,9 +70,11 @@ def convert_zdi_to_pfss(input_file, output_name=None, degree_max=None, write_swm
     zdi_radial_coefficients, *_ = coefficients.hsplit(zdi_coefficients)
     pfss_coefficients = converter.convert_zdi_to_pfss(zdi_radial_coefficients)
 
+    overwrite = output_name is not None
     output_name = _make_output_filename(input_file, output_name, postfix="wso")
     reader_writer.write_magnetogram_file(pfss_coefficients, file_name=output_name, degree_max=degree_max,
-                                         write_swmf_header=write_swmf_header)
+                                         write_swmf_header=write_swmf_header,
+                                         overwrite=overwrite)
 
 
 def convert_pfss_to_zdi(input_file, output_name=None, degree_max=None):
@@ -83,10 +87,12 @@ def convert_pfss_to_zdi(input_file, output_name=None, degree_max=None):
 
     zdi_coefficients = converter.convert_pfss_to_zdi(pfss_coefficients)
 
+    overwrite = output_name is not None
     output_name = _make_output_filename(input_file, output_name, postfix="zdi")
     reader_writer.write_magnetogram_file(zdi_coefficients, file_name=output_name,
                                          order_min=0,
-                                         degree_max=degree_max)
+                                         degree_max=degree_max,
+                                         overwrite=overwrite)
 
 
 def _make_output_filename(input_file, output_name, postfix):
diff --git a/starwinds_magnetogram/reader_writer.py b/starwinds_magnetogram/reader_writer.py
index a2c1990..184af6f 100644
--- a/starwinds_magnetogram/reader_writer.py
+++ b/starwinds_magnetogram/reader_writer.py
@@ -89,13 +89,15 @@ def read_magnetogram_file(file_name):
     return shc.hstack(coefficient_sets)
 
 
-def write_magnetogram_file(coefficient_sets, file_name, degree_max=None, order_min=0, write_swmf_header=False):
+def write_magnetogram_file(coefficient_sets, file_name, degree_max=None, order_min=0, write_swmf_header=False,
+                           overwrite=True):
     """
 
     :param coefficient_sets:
     :param file_name:
     :param degree_max:
     :param order_min:
+    :param overwrite: replace an existing file; otherwise a FileExistsError is raised and the file is left as it is.
     :return:
     """
     if degree_max is None:
@@ -122,7 +124,7 @@ def write_magnetogram_file(coefficient_sets, file_name, degree_max=None, order_m
     else:
         header_lines = ["Output of %s" % __file__, "Order:%d" % degree_max]
 
-    with _replace_when_complete(file_name) as f:
+    with _replace_when_complete(file_name, overwrite) as f:
         f.write("\n".join(header_lines))
         f.write("\n")
         for data_lines in coefficient_data_lines:
@@ -133,12 +135,16 @@ def write_magnetogram_file(coefficient_sets, file_name, degree_max=None, order_m
 
 
 @contextlib.contextmanager
-def _replace_when_complete(file_name):
+def _replace_when_complete(file_name, overwrite=True):
     """
     Open a text file for writing. What is written appears under file_name only when all of it has reached the disk;
     until then, and if anything goes wrong, file_name keeps its previous content (or stays absent).
     :param file_name: destination; a symbolic link is followed.
+    :param overwrite: replace an existing file; otherwise a FileExistsError is raised.
     """
+    if not overwrite and os.path.lexists(file_name):
+        raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), file_name)
+
     target = _follow_links(os.fsdecode(file_name))
 
     try:
@@ -163,10 +169,28 @@ def _replace_when_complete(file_name):
             os.fsync(f.fileno())
         if mode is not None:
             os.chmod(temporary, stat.S_IMODE(mode))
-        os.replace(temporary, target)
+        if overwrite:
+            os.replace(temporary, target)
+        else:
+            _put_at_new_name(temporary, target)
     finally:
         with contextlib.suppress(OSError):
-            os.unlink(temporary)  # Fails, as it should, if the file has been renamed.
+            os.unlink(temporary)  # Fails, as it should, if the file has been moved.
+
+
+def _put_at_new_name(file_name, new_name):
+    """
+    Make a file appear at a new name, but never replace a file which has that name, however recently it got there.
+    """
+    try:
+        os.link(file_name, new_name)
+    except OSError as e:
+        if e.errno not in (errno.EPERM, errno.EOPNOTSUPP, errno.ENOSYS):
+            raise
+        # No hard links on this file system. Claim the name first.
+        with open(new_name, 'x'):
+            pass
+        os.replace(file_name, new_name)
 
 
 def _follow_links(file_name):
-- 
2.43.0


From e7d3ebf2b838fae61e2beae692677cbc1e700119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:06 +0000
Subject: [PATCH 06/17] fix: do not modify the radii passed to a Parker
 solution

---
 starwinds_magnetogram/parker_solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/parker_solution.py b/starwinds_magnetogram/parker_solution.py
index 0051dd6..d7d9136 100644
--- a/starwinds_magnetogram/parker_solution.py
+++ b/starwinds_magnetogram/parker_solution.py
@@ -99,7 +99,7 @@ class ParkerSolution(AnalyticBase):
         :param radii:
         :return:
         """
-        radii = np.atleast_1d(radii)
+        radii = np.array(radii, ndmin=1)  # A copy, as it is modified below.
         radii[np.where(radii <= self.stellar_radius)] = self.stellar_radius
 
         speeds_dimensionless = self.find_parker_analytic(radii / self.radius_sonic)
@@ -112,7 +112,7 @@ class ParkerSolution(AnalyticBase):
         :param radii:
         :return:
         """
-        radii = np.atleast_1d(radii)
+        radii = np.array(radii, ndmin=1)  # A copy, as it is modified below.
         radii[np.where(radii <= self.stellar_radius)] = self.stellar_radius
 
         speeds = self.speed(radii)
-- 
2.43.0


From bf97d9d7a79eb4569ebcc14788c552837cc67afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:06 +0000
Subject: [PATCH 07/17] fix: do not hand out the cached spherical harmonic
 array

---
 starwinds_magnetogram/image_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/image_converter.py b/starwinds_magnetogram/image_converter.py
index bf39932..5655793 100644
--- a/starwinds_magnetogram/image_converter.py
+++ b/starwinds_magnetogram/image_converter.py
@@ -94,7 +94,7 @@ def spherical_harmonic(ord_m, deg_l, azimuth, polar, use_cache=True):
 
         ylm = _cached_spherical_harmonic(ord_m, deg_l, azimuth_tuple, polar_tuple)
 
-        return ylm
+        return ylm.copy()  # The cached array must not be handed out as it is mutable.
     else:
         return sph_harm(ord_m, deg_l, azimuth, polar)
 
-- 
2.43.0


From f5740774c3a9efc2a9721d72deff7f2675ef2d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:06 +0000
Subject: [PATCH 08/17] fix: give the comparison of coefficients a defined
 default

---
 starwinds_magnetogram/coefficients.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index d282542..5869416 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -235,7 +235,9 @@ def isclose(shc0, shc1, **kwargs):
     bools = np.isclose(c0, c1, **kwargs)
 
     # Use a boolean array as the default coefficient
-    coeffs = Coefficients(default_coefficients=np.empty_like(shc0.default_coefficients, dtype=bool))
+    coeffs = Coefficients(default_coefficients=np.isclose(shc0.default_coefficients,
+                                                          shc1.default_coefficients,
+                                                          **kwargs))
     for (degree, order), bool_ in zip(keys, bools):
         coeffs.append(degree, order, bool_)
     return coeffs
-- 
2.43.0


From bdb2738bcb6fd31e2f4967c0c477cd7bf0d5085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:35 +0000
Subject: [PATCH 09/17] fix: do not hand out the corner arrays of a geometry

---
 starwinds_magnetogram/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/geometry.py b/starwinds_magnetogram/geometry.py
index e51ae57..0a081a0 100644
--- a/starwinds_magnetogram/geometry.py
+++ b/starwinds_magnetogram/geometry.py
@@ -33,7 +33,7 @@ class ZdiGeometry:
 
     def corners(self):
         """Facet corner polar coordinates (polar, azimuth)"""
-        return self.polar_corners, self.azimuthal_corners
+        return self.polar_corners.copy(), self.azimuthal_corners.copy()
 
     # @cached_property
     def centers(self):
-- 
2.43.0


From 3c2f3b80c28000d4e6c3fdeb7aa47b62298e6d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:35 +0000
Subject: [PATCH 10/17] fix: return new arrays from normal_plane

---
 starwinds_magnetogram/pfss_magnetogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/pfss_magnetogram.py b/starwinds_magnetogram/pfss_magnetogram.py
index 3ff5e0a..b735258 100644
--- a/starwinds_magnetogram/pfss_magnetogram.py
+++ b/starwinds_magnetogram/pfss_magnetogram.py
@@ -309,7 +309,7 @@ def normal_plane(p1, p2, normal):
     :param normal:
     :return:
     """
-    p3 = np.zeros_like(p1)
+    p1, p2, p3 = np.array(p1), np.array(p2), np.zeros_like(p1)
     if normal == "x":
         return p3[..., np.newaxis], p1[..., np.newaxis], p2[..., np.newaxis]
     elif normal == "y":
-- 
2.43.0


From 2a91c64cb11da954eaea530dd91bc344935f109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:35 +0000
Subject: [PATCH 11/17] fix: do not hand out the arrays stored in a coefficient
 set

---
 starwinds_magnetogram/coefficients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index 5869416..25ef47f 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -53,7 +53,7 @@ class Coefficients(object):
         assert type(degree) == int, "Degree index must be integer"
         assert type(order) == int, "Order index must be integer"
 
-        return self.coefficients.get((degree, order), self._default_coefficients)
+        return self.coefficients.get((degree, order), self._default_coefficients).copy()
 
     @property
     def degree_max(self):
@@ -85,7 +85,7 @@ class Coefficients(object):
     def contents(self):
         def iterator():
             for key in sorted(self.coefficients):
-                yield key, self.coefficients[key]
+                yield key, self.coefficients[key].copy()
         return iterator()
 
     def as_arrays(self, include_unset=True,
-- 
2.43.0


From 3f21a3bb476ae455f2fe4e59fe6f7efc56f9ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:26 +0000
Subject: [PATCH 12/17] fix: draw colour bars in the figure of their axes

plot_zdi_field and plot_streamtraces created the colour bar through pyplot, that is in whatever figure was current. With no
figure managed by pyplot this opened a new empty one; with another figure current it could gain axes.
---
 starwinds_magnetogram/plot_zdi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index 4218e53..0630ebf 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -309,7 +309,7 @@ def plot_zdi_field(getter_fn, ax=None, zg=None, symmetric=None, cmap=None, legen
     divider = make_axes_locatable(ax)
     cax = divider.append_axes("right", size="3%", pad=0.05)
 
-    cb = plt.colorbar(img, cax=cax)
+    cb = ax.figure.colorbar(img, cax=cax)
 
     # cb = ax.figure.colorbar(img, ax=ax)
     if zero_contour:
@@ -356,7 +356,7 @@ def plot_streamtraces(mgm, geometry=None, ax=None):
     img = starwinds_magnetogram.plots.plot_equirectangular(geometry, B_mag, ax,
                                vmin=0, cmap='viridis')
 
-    c = plt.colorbar(img, ax=ax)#, extend='both')
+    c = ax.figure.colorbar(img, ax=ax)#, extend='both')
     c.set_label("Field strength")
     # c.set_clim(vmin=-180, vmax=180)
     # c.set_ticks((-180, -120, -60, 0, 60, 120, 180), update_ticks=True)
-- 
2.43.0


From 2d615ac9adf02a6a95e7151b975e7b5bcd822c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:26 +0000
Subject: [PATCH 13/17] fix: make the energies of a magnetogram real also when
 the field is strong

np.real_if_close has an absolute tolerance, so coefficients of a few thousand gauss gave complex energies and
plot_magnetogram -p energy-summary failed.
---
 starwinds_magnetogram/zdi_magnetogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 18b37cd..c99a49b 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -511,7 +511,7 @@ class ZdiMagnetogram:
         if require_l_term:
             result *= self.degrees_l / (self.degrees_l + 1)
 
-        return np.real_if_close(result)
+        return np.real(result)  # The imaginary part is zero up to round-off in the products.
 
     def _dplm(self, p_lm, points_polar):
         """
-- 
2.43.0


From 1a8122c8e785abddfb60025d085750e0aa4f2432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:26 +0000
Subject: [PATCH 14/17] fix: let plot_lsd plot a single parameter

With one parameter pyplot.subplots returns a bare Axes, which cannot be indexed.
---
 starwinds_magnetogram/bin/plot_lsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/bin/plot_lsd.py b/starwinds_magnetogram/bin/plot_lsd.py
index 172e915..df63617 100644
--- a/starwinds_magnetogram/bin/plot_lsd.py
+++ b/starwinds_magnetogram/bin/plot_lsd.py
@@ -27,9 +27,9 @@ def main():
     base_data = np.genfromtxt(args.input_file, skip_header=args.skip_rows)
 
     parameters = args.params
-    _, axs = plt.subplots(len(parameters), figsize=(8, 6), sharex=True)
+    _, axs = plt.subplots(len(parameters), figsize=(8, 6), sharex=True, squeeze=False)
     plot_lsd.plot_lsd_profile(base_data, parameters=parameters)
-    axs[0].set_title('Data in %s' % args.input_file)
+    axs[0, 0].set_title('Data in %s' % args.input_file)
 
     if args.output_file is None:
         plt.show()
-- 
2.43.0


From 4974e68411131b0aaca20d143b9ce7fa735617d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:26 +0000
Subject: [PATCH 15/17] fix: do not replace the input file of a plot command
 with the picture

An output name that denotes the input file, directly or through a link, is an error as it is in convert_magnetogram.
---
 starwinds_magnetogram/bin/generic_arguments.py | 7 +++++++
 starwinds_magnetogram/bin/plot_lsd.py          | 2 ++
 starwinds_magnetogram/bin/plot_magnetogram.py  | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/starwinds_magnetogram/bin/generic_arguments.py b/starwinds_magnetogram/bin/generic_arguments.py
index 7047875..405097c 100644
--- a/starwinds_magnetogram/bin/generic_arguments.py
+++ b/starwinds_magnetogram/bin/generic_arguments.py
@@ -1,6 +1,7 @@
 import logging
 log = logging.getLogger(__name__)
 
+import os.path
 from contextlib import contextmanager
 
 import starwinds_magnetogram as _package
@@ -23,6 +24,12 @@ def handle(parser):
     logging.getLogger(_package.__package__).setLevel(args.log_level)  # Set for entire package.
     
 
+def check_output_file(parser, input_file, output_file):
+    """Stop if the output file is the input file, also under another name."""
+    if output_file is not None and os.path.exists(output_file) and os.path.samefile(input_file, output_file):
+        parser.error(f"output file \"{output_file}\" is the input file")
+
+
 @contextmanager
 def defaults(parser):
     yield 
diff --git a/starwinds_magnetogram/bin/plot_lsd.py b/starwinds_magnetogram/bin/plot_lsd.py
index df63617..deaba7b 100644
--- a/starwinds_magnetogram/bin/plot_lsd.py
+++ b/starwinds_magnetogram/bin/plot_lsd.py
@@ -23,6 +23,8 @@ def main():
 
     args = parser.parse_args(); args.debug and breakpoint()
 
+    generic_arguments.check_output_file(parser, args.input_file, args.output_file)
+
     # Processing starts here
     base_data = np.genfromtxt(args.input_file, skip_header=args.skip_rows)
 
diff --git a/starwinds_magnetogram/bin/plot_magnetogram.py b/starwinds_magnetogram/bin/plot_magnetogram.py
index 955d3e8..ed959ad 100644
--- a/starwinds_magnetogram/bin/plot_magnetogram.py
+++ b/starwinds_magnetogram/bin/plot_magnetogram.py
@@ -27,6 +27,8 @@ def main():
 
     args = parser.parse_args(); args.debug and breakpoint()
 
+    generic_arguments.check_output_file(parser, args.input_file, args.output_file)
+
     # Processing starts here
     coefficients = reader_writer.read_magnetogram_file(args.input_file, )
 
-- 
2.43.0


From 8b2ff71fc759934894ed6059cb92308cb718efef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 16/17] fix: keep the file name in the SWMF header one word

A name such as "1 0 2.5 3.5" was read back as a coefficient, and one with a line break
moved the header lines that follow it.
---
 starwinds_magnetogram/reader_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/reader_writer.py b/starwinds_magnetogram/reader_writer.py
index 184af6f..0517a21 100644
--- a/starwinds_magnetogram/reader_writer.py
+++ b/starwinds_magnetogram/reader_writer.py
@@ -218,7 +218,7 @@ def create_swmf_header(file_name="Default-file-name", num_data_lines=496, max_de
     delta longitude. For stellar models the only parameter to change is number of data lines."""
     log.debug('Adding SWMF header')
     header = [
-        str(file_name),
+        "_".join(str(file_name).split()),  # One word; a name like "1 0 2.5 3.5" would be read back as a coefficient.
         "  ".join([str(s) for s in (0, 0.0, -2, 3, 2)]),
         "  ".join([str(s) for s in (num_data_lines, 1)]),
         "  ".join([str(s) for s in (max_degree, carrington_rotation_number, dlon)]),
-- 
2.43.0


From 4781758c47b51a34f366a53817c1d34503958559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 17/17] fix: do not take a link that cannot be read for a plain
 file

---
 starwinds_magnetogram/reader_writer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/reader_writer.py b/starwinds_magnetogram/reader_writer.py
index 0517a21..9ba9c2d 100644
--- a/starwinds_magnetogram/reader_writer.py
+++ b/starwinds_magnetogram/reader_writer.py
@@ -199,9 +199,13 @@ def _follow_links(file_name):
     the system to resolve the directories, so "missing/../file" is an error here and not another name for "file".
     """
     for _ in range(40):
-        if not os.path.islink(file_name):
-            return file_name
-        file_name = os.path.join(os.path.dirname(file_name), os.readlink(file_name))
+        try:
+            link = os.readlink(file_name)
+        except OSError as e:
+            if e.errno not in (errno.EINVAL, errno.ENOENT, errno.ENOTDIR):
+                raise
+            return file_name  # Not a link.
+        file_name = os.path.join(os.path.dirname(file_name), link)
     raise OSError(errno.ELOOP, os.strerror(errno.ELOOP), file_name)
 
 
-- 
2.43.0

