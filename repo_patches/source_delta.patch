From 148a49afa202552e88b881ccd83c772fb1f1e8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 01/30] fix: do not evict from the memory cache when it is
 exactly full

---
 src/earthkit/regrid/utils/memcache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index d65dd4b..f280328 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -124,7 +124,7 @@ class LRUPolicy(MemoryCachePolicy):
         if not self.cache.items:
             return
 
-        while self.cache.curr_mem >= target_size:
+        while self.cache.curr_mem > target_size:
             _, item = self.cache.items.popitem(0)
             self.cache.curr_mem -= item.size
             del item
@@ -152,7 +152,7 @@ class LargestPolicy(MemoryCachePolicy):
         if not self.cache.items:
             return
 
-        while self.cache.curr_mem >= target_size:
+        while self.cache.curr_mem > target_size:
             _, largest = max((v.size, k) for k, v in self.cache.items.items())
             self.cache.curr_mem -= self.cache.items[largest].size
             if self.cache.curr_mem < 0:
-- 
2.43.0


From b71fb196a05491d997b8a75990821aa613e1313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 02/30] fix: do not flush the memory cache for weights that
 cannot fit into it

---
 src/earthkit/regrid/utils/memcache.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index f280328..5f7d06f 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -244,9 +244,12 @@ class MemoryCache:
             self.misses += 1
 
             if data[0] is not None:
-                self.items[key] = _MemoryItem(data, self.size_fn(data[0]), time.time())
-                self.curr_mem += self.items[key].size
-                self._reduce()
+                size = self.size_fn(data[0])
+                # weights that cannot fit into the cache are not loaded into it
+                if not self.policy.has_limit() or size <= self.max_mem:
+                    self.items[key] = _MemoryItem(data, size, time.time())
+                    self.curr_mem += size
+                    self._reduce()
 
             return data
 
-- 
2.43.0


From fddd8a80fe9a72ee70f2a4f3186ff9100a7fc187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 03/30] fix: keep the weights of different inventories apart in
 the memory cache

---
 src/earthkit/regrid/backends/db.py    | 1 +
 src/earthkit/regrid/utils/memcache.py | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 79d4c29..6d32124 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -473,6 +473,7 @@ class MatrixDb:
             create=self._create_matrix,
             find_entry=self.find_entry,
             create_from_entry=self._create_matrix_from_entry,
+            source=self.matrix_source(),
             **kwargs,
         )
 
diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index 5f7d06f..d7de0b5 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -220,7 +220,7 @@ class MemoryCache:
         self.lock = threading.Lock()
         self.update()
 
-    def get(self, *args, create=None, find_entry=None, create_from_entry=None):
+    def get(self, *args, create=None, find_entry=None, create_from_entry=None, source=None):
         if not self.policy.has_cache():
             return create(*args)
 
@@ -228,7 +228,8 @@ class MemoryCache:
             if not self.policy.has_cache():
                 return create(*args)
 
-            key = make_sha(args)
+            # the same grids have different weights in different inventories
+            key = make_sha([source, *args])
             if key in self.items:
                 item = self.items[key]
                 # TODO: move_to_end is only required for the "lru" policy
-- 
2.43.0


From 3a5e6a548eb53053054db704493c73bde38b4ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 04/30] fix: do not treat a reduced Gaussian latitude band as
 the global grid

---
 src/earthkit/regrid/gridspec.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/gridspec.py b/src/earthkit/regrid/gridspec.py
index 0a87c03..a4d4bd9 100644
--- a/src/earthkit/regrid/gridspec.py
+++ b/src/earthkit/regrid/gridspec.py
@@ -318,9 +318,19 @@ class ReducedGGGridSpec(GridSpec):
                 self._global_ew = True
         return self._global_ew
 
+    @property
+    def north(self):
+        return self["area"][0]
+
+    @property
+    def south(self):
+        return self["area"][2]
+
     def is_global_ns(self):
         if self._global_ns is None:
-            self._global_ns = True
+            # the outermost Gaussian latitudes are within one row spacing of the poles
+            dy = 90.0 / self.N
+            self._global_ns = self.north > 90.0 - dy and self.south < -90.0 + dy
         return self._global_ns
 
     def _inspect_grid(self):
-- 
2.43.0


From 30b277b5dd0d56524ecb6cf25da148db9720a33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 05/30] fix: read boolean settings given as text and validate
 the environment values

---
 src/earthkit/regrid/utils/config.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 71823f0..26ab009 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -331,7 +331,12 @@ class Config:
             else:
                 value = self._config.get(name, default)
 
-        return getter(name, value, none_ok)
+        if config_item.kind is bool:
+            value = self._as_bool(name, value, none_ok)
+
+        value = getter(name, value, none_ok)
+        config_item.validate(name, value)
+        return value
 
     @forward
     def set(self, *args, **kwargs):
@@ -388,7 +393,7 @@ class Config:
             assert len(args) == 1
             assert len(kwargs) == 0
             value = args[0]
-            value = klass(value)
+            value = self._as_bool(name, value, False) if klass is bool else klass(value)
 
         if klass is list:
             assert len(args) > 0
@@ -547,6 +552,18 @@ class Config:
             return None
         return str(value)
 
+    def _as_bool(self, name, value, none_ok):
+        if value is None and none_ok:
+            return None
+        if isinstance(value, str):
+            v = value.strip().lower()
+            if v in ("true", "yes", "on", "1"):
+                return True
+            if v in ("false", "no", "off", "0", ""):
+                return False
+            raise ValueError(f"{name}: invalid boolean {value}")
+        return bool(value)
+
     def _as_int(self, name, value, none_ok):
         if value is None and none_ok:
             return None
-- 
2.43.0


From 518101dd61ffceb4c84edeeea2c5f4ba0e47c522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 06/30] fix: set none of the config options when one of them is
 invalid

---
 src/earthkit/regrid/utils/config.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 26ab009..134daec 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -351,15 +351,24 @@ class Config:
         """
         if len(args) == 0:
             assert len(kwargs) > 0
-            for k, v in kwargs.items():
-                self._set(k.replace("_", "-"), v)
-            self._changed()
+            items = {k.replace("_", "-"): v for k, v in kwargs.items()}
+        elif len(args) == 1 and isinstance(args[0], dict):
+            items = args[0]
         else:
-            if len(args) == 1 and isinstance(args[0], dict):
-                for k, v in args[0].items():
-                    self._set(k, v)
-            else:
+            items = None
+
+        current = dict(self._config)
+        try:
+            if items is None:
                 self._set(*args, **kwargs)
+            else:
+                for k, v in items.items():
+                    self._set(k, v)
+        except Exception:
+            # either all the options are set or none of them
+            self._config = current
+            raise
+
         self._changed()
 
     def _set(self, name: str, *args, **kwargs):
-- 
2.43.0


From c636026abce347b4b4bc0d6ac20bc87507e08f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 07/30] fix: undo a temporary config and notify every
 subscriber when one of them fails

---
 src/earthkit/regrid/utils/config.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 134daec..1f65448 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -232,8 +232,8 @@ for k, v in CONFIG_AND_HELP.items():
 def new_config(s):
     """Context manager to create new config"""
     CONFIG._stack.append(s)
-    CONFIG._notify()
     try:
+        CONFIG._notify()
         yield None
     finally:
         CONFIG._stack.pop()
@@ -518,8 +518,15 @@ class Config:
 
     def _notify(self):
         if self._notify_enabled:
+            error = None
             for cb in self._callbacks:
-                cb()
+                try:
+                    cb()
+                except Exception as e:
+                    # the other subscribers must still be notified
+                    error = error or e
+            if error is not None:
+                raise error
 
     def on_change(self, callback: Callable[[], None]):
         self._callbacks.append(callback)
-- 
2.43.0


From 9b8e4577da7f36b085df4841b78c59d152a86b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 08/30] fix: keep the config file readable when an option is
 set to a Path or numpy value

---
 src/earthkit/regrid/utils/config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 1f65448..43f28c4 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -430,7 +430,10 @@ class Config:
             assert len(kwargs) == 0
             value = args[0]
             # Check if value is properly formatted for getter
-            getattr(self, getter)(name, value, none_ok)
+            converted = getattr(self, getter)(name, value, none_ok)
+            if value is not None and type(value) not in (str, int, float, bool):
+                # other types (e.g. Path) could not be read back from the config file
+                value = converted
         else:
             if not isinstance(value, klass):
                 raise TypeError("Config option '%s' must be of type '%s'" % (name, klass))
-- 
2.43.0


From a9993277803615f1446ca1f9a0ab0829ac35cb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 09/30] fix: pass the interpolation options of array requests
 on to MIR, and leave 'automatic' to it

---
 src/earthkit/regrid/backends/mir.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/backends/mir.py b/src/earthkit/regrid/backends/mir.py
index 98fb6a0..0a1be06 100644
--- a/src/earthkit/regrid/backends/mir.py
+++ b/src/earthkit/regrid/backends/mir.py
@@ -25,6 +25,11 @@ class MirBackend(Backend):
 
         raise ValueError(f"Invalid area format: {area}")
 
+    @staticmethod
+    def job_options(kwargs):
+        # "automatic" leaves the choice to MIR, which does not know it as a method
+        return {k: v for k, v in kwargs.items() if k != "nearest_method" or v != "automatic"}
+
     @staticmethod
     def adjust_options(grid, kwargs):
         # TODO: remove this once we have a better way to handle area in gridspec
@@ -61,14 +66,13 @@ class MirBackend(Backend):
             "nclosest": nclosest,
         }
 
-        out_grid, kwargs = self.adjust_options(out_grid, {})
+        out_grid, kwargs = self.adjust_options(out_grid, self.job_options(kwargs))
 
         input = mir.ArrayInput(values, in_grid)
         out = mir.ArrayOutput()
 
         job = mir.Job()
         job.set("grid", out_grid)
-        job.set("interpolation", interpolation)  # NOTE: needs generalisation
         for k, v in kwargs.items():
             job.set(k, v)
 
@@ -99,7 +103,7 @@ class MirBackend(Backend):
             "nclosest": nclosest,
         }
 
-        out_grid, kwargs = self.adjust_options(grid, kwargs)
+        out_grid, kwargs = self.adjust_options(grid, self.job_options(kwargs))
 
         in_data = mir.GribMemoryInput(message)
         out = BytesIO()
-- 
2.43.0


From bf2013d50f59026d84d23ba8b0490a34914283e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 10/30] fix: accept the target of a converted MIR matrix given
 as a str

---
 src/earthkit/regrid/utils/mir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index 1b70467..b6a6c6a 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -66,7 +66,7 @@ def mir_cached_matrix_to_array(path):
 
 
 def mir_cached_matrix_to_file(path, target):
-    if not target.suffix == ".npz":
+    if not Path(target).suffix == ".npz":
         raise ValueError("target must end with .npz")
 
     z = mir_cached_matrix_to_array(path)
-- 
2.43.0


From 7b14a72b7b693d61b3e6df9193ebee8542534d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 11/30] fix: never reuse the griddef file of other coordinates

---
 src/earthkit/regrid/utils/mir.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index b6a6c6a..8a25030 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -9,6 +9,7 @@
 # nor does it submit to any jurisdiction.
 #
 
+import os
 from pathlib import Path
 from typing import Dict
 from typing import List
@@ -98,7 +99,8 @@ def _griddef_from_latlon(lat, lon, dir=None):
     import hashlib
 
     version = 1
-    coord = str(version) + str(lat) + str(lon)
+    # all the values in full (the str of an array is rounded and abbreviated)
+    coord = str(version) + str([float(x) for x in lat]) + str([float(x) for x in lon])
     hash = hashlib.md5(coord.encode()).hexdigest()
 
     name = Path(hash + ".griddef")
@@ -106,7 +108,14 @@ def _griddef_from_latlon(lat, lon, dir=None):
         name = dir / name
 
     if not name.exists():
-        mir_write_latlon_to_griddef(name, lat, lon)
+        # a write that fails half way must not be taken for the grid next time
+        tmp = f"{name}.{os.getpid()}.tmp"
+        try:
+            mir_write_latlon_to_griddef(tmp, lat, lon)
+            os.replace(tmp, name)
+        finally:
+            if os.path.exists(tmp):
+                os.unlink(tmp)
 
     return str(name)
 
-- 
2.43.0


From 0541e7625dd34e12170ab55fdb12acb650fe4550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:45 +0000
Subject: [PATCH 12/30] fix: return the matrix from mir_make_matrix when no
 output file is given

---
 src/earthkit/regrid/utils/mir.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index 8a25030..6de8078 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -10,6 +10,7 @@
 #
 
 import os
+import tempfile
 from pathlib import Path
 from typing import Dict
 from typing import List
@@ -120,6 +121,13 @@ def _griddef_from_latlon(lat, lon, dir=None):
     return str(name)
 
 
+def _temporary_matrix_path():
+    fd, path = tempfile.mkstemp(suffix=".mat")
+    os.close(fd)
+    os.unlink(path)  # MIR creates it
+    return Path(path)
+
+
 def mir_make_matrix(
     in_grid: Optional[Dict] = None,
     in_lat: Optional[List] = None,
@@ -152,12 +160,10 @@ def mir_make_matrix(
     else:
         raise ValueError("mir_make_matrix: output grid or lats/lons must be provided.")
 
-    mat = Path(output)
-    if ext == ".mat":
-        job.set("interpolation-matrix", str(mat))
-    elif ext == ".npz":
+    mat = Path(output) if output is not None else _temporary_matrix_path()
+    if ext == ".npz":
         mat = mat.with_name(mat.name + ".mat")  # later unlinked
-        job.set("interpolation-matrix", str(mat))
+    job.set("interpolation-matrix", str(mat))
 
     for key, val in kwargs.items():
         job.set(key, val)
@@ -167,7 +173,7 @@ def mir_make_matrix(
     except Exception as e:
         raise RuntimeError(f"mir_make_matrix: error: {e}.") from e
 
-    if ext and not mat.exists():
+    if not mat.exists():
         raise FileNotFoundError(f"mir_make_matrix: matrix file '{mat}' not found.")
 
     if ext == ".npz":
@@ -175,7 +181,9 @@ def mir_make_matrix(
         mat.unlink()
         assert Path(output).exists()
     elif not ext:
-        return mir_cached_matrix_to_array(mat)
+        z = mir_cached_matrix_to_array(mat)
+        mat.unlink()
+        return z
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 3e9af49f51ae88cd12d1785ce30e930bc209bd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 13/30] fix: serve matrices whose output grid has no shape in
 the inventory

---
 src/earthkit/regrid/backends/db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 6d32124..ba6dac4 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -483,7 +483,8 @@ class MatrixDb:
     def _create_matrix_from_entry(self, entry):
         if entry is not None:
             z = self.load_matrix(entry)
-            return z, entry["output"]["shape"]
+            # grids like healpix have no shape of their own: their values are one dimensional
+            return z, entry["output"].get("shape", [z.shape[0]])
         return None, None
 
     def find_entry(self, gridspec_in, gridspec_out, method):
-- 
2.43.0


From 4c68eac39894054b7fe1a03007e62abc39cf66ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 14/30] fix: regrid xarray objects from the sub-area they are
 on, not from another one

---
 src/earthkit/regrid/data/xarray.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 08fde0c..573c798 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -36,7 +36,11 @@ class GridWrapper:
 
     @property
     def grid_spec(self):
-        return self.spec
+        spec = self.spec
+        if "area" in spec:
+            # the spec given for a sub-area can be that of another area
+            spec = dict(self._grid_spec)
+        return spec
 
     def is_spectral(self):
         return False
-- 
2.43.0


From b7435a3644f5cef704b0dcbee80f1a57e9839215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 15/30] fix: do not truncate the values interpolated from
 integer xarray objects

---
 src/earthkit/regrid/data/xarray.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 573c798..8850082 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -317,6 +317,9 @@ class XarrayDataHandler(DataHandler):
         method = _RegridMethod(in_grid.grid_spec, out_geo.grid_spec, **kwargs)
 
         def _regrid(da):
+            # interpolated values are not integers in general
+            dtype = float if da.dtype.kind in "biu" else da.dtype
+
             return xr.apply_ufunc(
                 method,
                 da,
@@ -329,7 +332,7 @@ class XarrayDataHandler(DataHandler):
                     "output_sizes": {dim: out_geo.shape[i] for i, dim in enumerate(out_dims)},
                     "allow_rechunk": True,
                 },
-                output_dtypes=[da.dtype],
+                output_dtypes=[dtype],
             )
 
         if isinstance(values, xr.Dataset):
-- 
2.43.0


From 74b73f1ece8d640c758395b73952c30827a9bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 16/30] fix: regrid xarray objects to grids of one row or one
 column

---
 src/earthkit/regrid/data/xarray.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 8850082..f29cd55 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -68,8 +68,7 @@ class GridWrapper:
         if rows > 0:
             for i in range(rows):
                 vals = lats[i, :]
-                delta = np.diff(vals)
-                if np.allclose(delta, delta[0]):
+                if np.allclose(vals, vals[0]):
                     r[i] = vals[0]
                 else:
                     return None
@@ -86,8 +85,7 @@ class GridWrapper:
         if cols > 0:
             for i in range(cols):
                 vals = lons[:, i]
-                delta = np.diff(vals)
-                if np.allclose(delta, delta[0]):
+                if np.allclose(vals, vals[0]):
                     r[i] = vals[0]
                 else:
                     return None
-- 
2.43.0


From 157765fee238051e9c04647f362f53d564ea40a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 17/30] fix: do not leave the gridspec of the input on the
 regridded xarray object

---
 src/earthkit/regrid/data/xarray.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index f29cd55..57581a5 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -345,6 +345,11 @@ class XarrayDataHandler(DataHandler):
         # with the new grid spec
         out_geo = XarrrayGeographyBuilder(method.out_grid)
 
+        # the gridspec of the input does not describe the result
+        for x in [ds_out, *ds_out.data_vars.values()] if isinstance(ds_out, xr.Dataset) else [ds_out]:
+            if "gridspec" in x.attrs:
+                x.attrs["gridspec"] = dict(method.out_grid)
+
         self.add_geo_coords(ds_out, out_geo)
 
         return ds_out
-- 
2.43.0


From ddfe470af1e502156790d1774cff1e96901e4154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 18/30] fix: return an empty field list for an empty field list

---
 src/earthkit/regrid/data/fieldlist.py   | 6 +++---
 src/earthkit/regrid/data_interpolate.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/earthkit/regrid/data/fieldlist.py b/src/earthkit/regrid/data/fieldlist.py
index ad291c2..0486516 100644
--- a/src/earthkit/regrid/data/fieldlist.py
+++ b/src/earthkit/regrid/data/fieldlist.py
@@ -69,7 +69,7 @@ class FieldListDataHandler(DataHandler):
                 "Fieldlists can only be regridded to global regular lat-lon target grids. Target grid is {out_grid}"
             )
 
-        r = earthkit.data.FieldList()
+        r = []
         for i, f in enumerate(ds):
             vv = f.to_numpy(flatten=True)
 
@@ -82,9 +82,9 @@ class FieldListDataHandler(DataHandler):
                 **kwargs,
             )
             md_res = f.metadata().override(gridspec=out_grid)
-            r += ds.from_numpy(v_res, md_res)
+            r.extend(ds.from_numpy(v_res, md_res))
 
-        return r
+        return earthkit.data.FieldList.from_fields(r)
 
     def _regrid_grib(self, values, backend, grid, **kwargs):
         # TODO: remove this when ecCodes supports setting the gridSpec on a GRIB handle
diff --git a/src/earthkit/regrid/data_interpolate.py b/src/earthkit/regrid/data_interpolate.py
index 8c067f3..45f4a31 100644
--- a/src/earthkit/regrid/data_interpolate.py
+++ b/src/earthkit/regrid/data_interpolate.py
@@ -105,7 +105,7 @@ class FieldListDataHandler(DataHandler):
                 "interpolate(): Fieldlists can only be interpolated to global regular lat-lon target grids"
             )
 
-        r = earthkit.data.FieldList()
+        r = []
         for i, f in enumerate(ds):
             vv = f.to_numpy(flatten=True)
 
@@ -118,9 +118,9 @@ class FieldListDataHandler(DataHandler):
                 **kwargs,
             )
             md_res = f.metadata().override(gridspec=out_grid)
-            r += ds.from_numpy(v_res, md_res)
+            r.extend(ds.from_numpy(v_res, md_res))
 
-        return r
+        return earthkit.data.FieldList.from_fields(r)
 
 
 DATA_HANDLERS = [NumpyDataHandler(), FieldListDataHandler()]
-- 
2.43.0


From fd3565e1eeb5cc7c0e3f11375897a0da7b7524c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 19/30] fix: never serve a cached directory of which a part was
 deleted

---
 src/earthkit/regrid/utils/caching.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 582b31e..9b9556a 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -326,7 +326,12 @@ class CacheManager(threading.Thread):
 
         try:
             if os.path.isdir(path) and not os.path.islink(path):
-                shutil.rmtree(path)
+                # a partly deleted directory must not be found under the name of the cached one
+                trash = path + ".deleted"
+                if os.path.isdir(trash):
+                    shutil.rmtree(trash)
+                os.rename(path, trash)
+                shutil.rmtree(trash)
             else:
                 os.unlink(path)
         except Exception as e:
-- 
2.43.0


From 2e232603cb612a148dce20c2adb974a701389797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 20/30] fix: create a cached directory anew when an earlier
 creation did not finish

---
 src/earthkit/regrid/utils/caching.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 9b9556a..ef423c8 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -1024,6 +1024,9 @@ def cache_file(
             lock = path + ".lock"
             with FileLock(lock):
                 if not os.path.exists(path):  # Check again, another thread/process may have created the file
+                    if os.path.isdir(path + ".tmp"):
+                        # what a creation that did not finish has left
+                        shutil.rmtree(path + ".tmp")
                     owner_data = create(path + ".tmp", args)
                     os.rename(path + ".tmp", path)
                     LOG.info(f"cache file created: {path=}")
-- 
2.43.0


From a86c30392b691a0cb5cbf6b29dafefba135ed8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 21/30] fix: delete orphans from the disk cache before the
 items in use

---
 src/earthkit/regrid/utils/caching.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index ef423c8..613a4ce 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -193,9 +193,10 @@ class CacheManager(threading.Thread):
         with self.connection as db:
             latest = db.execute("SELECT MIN(creation_date) FROM cache WHERE size IS NULL").fetchone()[0]
             if latest is None:
-                latest = db.execute("SELECT MAX(creation_date) FROM cache WHERE size IS NOT NULL").fetchone()[
-                    0
-                ]
+                # orphans found by the housekeeping are registered last, but they are not in use
+                latest = db.execute(
+                    "SELECT MAX(creation_date) FROM cache WHERE size IS NOT NULL AND owner != 'orphans'"
+                ).fetchone()[0]
             if latest is None:
                 latest = datetime.datetime.now()
             return latest
@@ -416,11 +417,14 @@ class CacheManager(threading.Thread):
         with self.connection as db:
             latest = datetime.datetime.now() if purge else self._latest_date()
 
-            for stmt in (
-                "SELECT * FROM cache WHERE size IS NOT NULL AND owner='orphans' AND creation_date < ?",
-                "SELECT * FROM cache WHERE size IS NOT NULL AND creation_date < ? ORDER BY last_access ASC",
+            for stmt, params in (
+                ("SELECT * FROM cache WHERE size IS NOT NULL AND owner='orphans'", ()),
+                (
+                    "SELECT * FROM cache WHERE size IS NOT NULL AND creation_date < ? ORDER BY last_access ASC",
+                    (latest,),
+                ),
             ):
-                for entry in db.execute(stmt, (latest,)):
+                for entry in db.execute(stmt, params):
                     total += self._delete_entry(entry)
                     if total >= bytes:
                         LOG.warning(
@@ -502,7 +506,8 @@ class CacheManager(threading.Thread):
                 size = self._cache_size()
                 if size > maximum:
                     self._housekeeping()
-                    self._decache(size - maximum)
+                    # the orphans that were found count as well
+                    self._decache(self._cache_size() - maximum)
 
             # Check relative limit
             usage = self._policy.maximum_cache_disk_usage()
-- 
2.43.0


From 423cd0b9a581731cced40355b0dd4e1d31d03932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:51 +0000
Subject: [PATCH 22/30] fix: enforce the disk cache limits after a creation has
 failed

---
 src/earthkit/regrid/utils/caching.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 613a4ce..6bd251f 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -188,15 +188,15 @@ class CacheManager(threading.Thread):
 
     def _latest_date(self):
         """Returns the latest date to be used when purging the cache.
-        So we do not purge files being downloaded.
+        So we do not purge the file created last. The files being downloaded have
+        no size yet and are not purged. They do not protect the files created after
+        them: when the download has failed they would do so forever.
         """
         with self.connection as db:
-            latest = db.execute("SELECT MIN(creation_date) FROM cache WHERE size IS NULL").fetchone()[0]
-            if latest is None:
-                # orphans found by the housekeeping are registered last, but they are not in use
-                latest = db.execute(
-                    "SELECT MAX(creation_date) FROM cache WHERE size IS NOT NULL AND owner != 'orphans'"
-                ).fetchone()[0]
+            # orphans found by the housekeeping are registered last, but they are not in use
+            latest = db.execute(
+                "SELECT MAX(creation_date) FROM cache WHERE size IS NOT NULL AND owner != 'orphans'"
+            ).fetchone()[0]
             if latest is None:
                 latest = datetime.datetime.now()
             return latest
-- 
2.43.0


From f46c092f3a71cd763932d2d71924dfa182661aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 23/30] fix: do not evict the file just created again from the
 disk cache

---
 src/earthkit/regrid/utils/caching.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 6bd251f..585bd30 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -240,12 +240,14 @@ class CacheManager(threading.Thread):
             size = os.path.getsize(path)
 
         with self.connection as db:
+            # the entry may be older than the file when the file has been created again
             db.execute(
-                "UPDATE cache SET size=?, type=?, owner_data=? WHERE path=?",
+                "UPDATE cache SET size=?, type=?, owner_data=?, creation_date=? WHERE path=?",
                 (
                     size,
                     kind,
                     json.dumps(owner_data, default=default_serialiser),
+                    datetime.datetime.now(),
                     path,
                 ),
             )
-- 
2.43.0


From bd7e0ec74346e14e9d621542b2ab0dea87a08629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 24/30] fix: report the size of the disk cache when a creation
 has failed

---
 src/earthkit/regrid/utils/caching.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 585bd30..c2f5b73 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -564,10 +564,13 @@ class CacheManager(threading.Thread):
 
     def _summary_dump_cache_database(self, matcher=lambda x: True):
         result = self._dump_cache_database(matcher=matcher)
-        count = len(result)
+        count = 0
         size = 0
         for r in result:
-            size += r.get("size", 0)
+            # an entry without size has no file (yet)
+            if r["size"] is not None:
+                count += 1
+                size += r["size"]
         return count, size
 
 
-- 
2.43.0


From 9e2ee3d7d41cac1e3ea341efd7d59934fcfe667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:26 +0000
Subject: [PATCH 25/30] fix: account for files whose creator ended before their
 size was stored

---
 src/earthkit/regrid/utils/caching.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index c2f5b73..4f44143 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -137,6 +137,8 @@ class CacheManager(threading.Thread):
     def connection(self):
         if self._policy.managed() and self._connection is None:
             self._connection = self.new_connection()
+            # A process may have ended between publishing a file and storing its size
+            self._update_cache()
 
         return self._connection
 
-- 
2.43.0


From df00350b40c989703d4ae10e253e1eb09fa77bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 26/30] fix: purge all entries of the disk cache, also the ones
 that take no space

---
 src/earthkit/regrid/utils/caching.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 4f44143..d90382c 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -207,10 +207,11 @@ class CacheManager(threading.Thread):
         if matcher is None:
             self._housekeeping(clean=True)
             # _update_cache(clean=True)
-            self._decache(self._cache_size(), purge=True)
-            return
+            # all entries, also the ones that take no space
+            dump = self._dump_cache_database()
+        else:
+            dump = self._dump_cache_database(matcher)
 
-        dump = self._dump_cache_database(matcher)
         for entry in dump:
             self._delete_entry(entry)
 
@@ -407,7 +408,7 @@ class CacheManager(threading.Thread):
 
         return total + size
 
-    def _decache(self, bytes, purge=False):
+    def _decache(self, bytes):
         # _find_orphans()
         # _update_cache(clean=True)
 
@@ -419,7 +420,7 @@ class CacheManager(threading.Thread):
         total = 0
 
         with self.connection as db:
-            latest = datetime.datetime.now() if purge else self._latest_date()
+            latest = self._latest_date()
 
             for stmt, params in (
                 ("SELECT * FROM cache WHERE size IS NOT NULL AND owner='orphans'", ()),
-- 
2.43.0


From 0ff037616485be37186dcab666d8bc253ca76f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 27/30] fix: never delete files of directories whose name
 starts with that of the disk cache

---
 src/earthkit/regrid/utils/caching.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index d90382c..20b4806 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -642,7 +642,9 @@ class CachePolicy(metaclass=ABCMeta):
         pass
 
     def file_in_cache_directory(self, path):
-        return path.startswith(self.directory())
+        # with the separator, so that e.g. "cache-old" is not in "cache"
+        directory = os.path.join(os.path.normpath(self.directory()), "")
+        return os.path.normpath(path).startswith(directory)
 
     @staticmethod
     def _expand_path(path):
-- 
2.43.0


From b6c45b3a98a44cb613cdd6d3e46212d7088940ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 28/30] fix: do not delete a file of the disk cache while
 another request is creating it

---
 src/earthkit/regrid/utils/caching.py | 34 ++++++++++++++++------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 20b4806..8cb8127 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -1020,23 +1020,29 @@ def cache_file(
             ),
         )
 
-        record = CACHE._register_cache_file(path, owner, args)
-        if os.path.exists(path):
-            if callable(force):
-                owner_data = record["owner_data"]
-                if owner_data is not None:
-                    owner_data = json.loads(owner_data)
-                force = force(args, path, owner_data)
-
-            if force:
-                LOG.info(f"decache file by force: {path=}")
-                CACHE._decache_file(path)
+        from filelock import FileLock
+
+        lock = path + ".lock"
+
+        if force:
+            # Another thread/process may be creating the file, or be about to create it again
+            with FileLock(lock):
                 record = CACHE._register_cache_file(path, owner, args)
+                if os.path.exists(path):
+                    if callable(force):
+                        owner_data = record["owner_data"]
+                        if owner_data is not None:
+                            owner_data = json.loads(owner_data)
+                        force = force(args, path, owner_data)
+
+                    if force:
+                        LOG.info(f"decache file by force: {path=}")
+                        CACHE._decache_file(path)
+                        CACHE._register_cache_file(path, owner, args)
+        else:
+            CACHE._register_cache_file(path, owner, args)
 
         if not os.path.exists(path):
-            from filelock import FileLock
-
-            lock = path + ".lock"
             with FileLock(lock):
                 if not os.path.exists(path):  # Check again, another thread/process may have created the file
                     if os.path.isdir(path + ".tmp"):
-- 
2.43.0


From 93b88c947ee0fe46dcfb2f723e21e0018ad3f07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:30 +0000
Subject: [PATCH 29/30] fix: try the remote index again after its download has
 failed

---
 src/earthkit/regrid/backends/db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index ba6dac4..a4daccb 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -116,6 +116,8 @@ class UrlAccessor(MatrixAccessor):
 
     def reload(self, force=False):
         self._index_path = self._get_index(check_remote=True, force=force)
+        # only now: when the download has failed the next request tries again
+        self._checked_remote = True
 
     def index_path(self):
         if self._index_path is None or not os.path.exists(self._index_path):
@@ -139,7 +141,6 @@ class UrlAccessor(MatrixAccessor):
                 return True
 
             remote_sha = self._remote_sha()
-            self._checked_remote = True
 
             if local_sha != remote_sha:
                 LOG.info(
@@ -162,7 +163,6 @@ class UrlAccessor(MatrixAccessor):
             """Decide if the index file should be downloaded and cached again."""
             LOG.info("UrlAccessor: forcefully download remote checksum and new index file")
             self._remote_sha()
-            self._checked_remote = True
             return True
 
         def _create(target, args):
-- 
2.43.0


From cc0f2ddb7e03d67f8d2f8bd5a41c0b3ad01b9b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:02 +0000
Subject: [PATCH 30/30] fix: let the temporary directory follow
 temporary-directory-root with cache-policy off

---
 src/earthkit/regrid/utils/caching.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 8cb8127..9f398bd 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -582,6 +582,7 @@ class CachePolicy(metaclass=ABCMeta):
         "cache-policy",
         "user-cache-directory",
         "temporary-cache-directory-root",
+        "temporary-directory-root",
         "maximum-cache-disk-usage",
         "maximum-cache-size",
     ]
-- 
2.43.0

