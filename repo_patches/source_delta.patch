From 5a975aa946694e93c65335bd558a491dbcad6a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 01/56] fix: keep weights of different inventories apart in the
 memory cache

The in-memory weights cache was keyed by grids and method only, so a request
for the same grids from another inventory got the weights of the first one.
---
 src/earthkit/regrid/backends/db.py    | 1 +
 src/earthkit/regrid/utils/memcache.py | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 79d4c29..5bd30a9 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -473,6 +473,7 @@ class MatrixDb:
             create=self._create_matrix,
             find_entry=self.find_entry,
             create_from_entry=self._create_matrix_from_entry,
+            source=str(self.matrix_source()),
             **kwargs,
         )
 
diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index d65dd4b..f7eb349 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -220,7 +220,7 @@ class MemoryCache:
         self.lock = threading.Lock()
         self.update()
 
-    def get(self, *args, create=None, find_entry=None, create_from_entry=None):
+    def get(self, *args, create=None, find_entry=None, create_from_entry=None, source=None):
         if not self.policy.has_cache():
             return create(*args)
 
@@ -228,7 +228,8 @@ class MemoryCache:
             if not self.policy.has_cache():
                 return create(*args)
 
-            key = make_sha(args)
+            # the same grids and method can be available in several inventories
+            key = make_sha([source, *args])
             if key in self.items:
                 item = self.items[key]
                 # TODO: move_to_end is only required for the "lru" policy
-- 
2.43.0


From b6293be1577bbdbf92b32a7d9cc03190c5d7e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 02/56] fix: accept None as memory cache limit with the lru and
 largest policies

maximum-weights-memory-cache-size is documented to accept None (no limit), but
with the lru and largest policies the comparison None <= 0 raised TypeError on
setting it and on every regrid after that.
---
 src/earthkit/regrid/utils/memcache.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index f7eb349..173c2f5 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -114,10 +114,9 @@ class LRUPolicy(MemoryCachePolicy):
     name = "lru"
 
     def check(self):
-        if self.cache.max_mem <= 0:
+        # None means no limit
+        if self.cache.max_mem is not None and self.cache.max_mem <= 0:
             raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
-        if self.cache.max_mem is None:
-            raise ValueError(f"Cannot use {self.name} policy with max_mem=None")
 
     def reduce(self, target_size):
         # must be called within a lock
@@ -135,17 +134,16 @@ class LRUPolicy(MemoryCachePolicy):
         return True
 
     def has_limit(self):
-        return True
+        return self.cache.max_mem is not None
 
 
 class LargestPolicy(MemoryCachePolicy):
     name = "largest"
 
     def check(self):
-        if self.cache.max_mem <= 0:
+        # None means no limit
+        if self.cache.max_mem is not None and self.cache.max_mem <= 0:
             raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
-        if self.cache.max_mem is None:
-            raise ValueError(f"Cannot use {self.name} policy with max_mem=None")
 
     def reduce(self, target_size):
         # must be called within a lock
@@ -166,7 +164,7 @@ class LargestPolicy(MemoryCachePolicy):
         return True
 
     def has_limit(self):
-        return True
+        return self.cache.max_mem is not None
 
 
 CACHE_POLICIES = {p.name: p for p in [NoPolicy, UnlimitedPolicy, LRUPolicy, LargestPolicy]}
@@ -324,7 +322,8 @@ class MemoryCache:
             if target_size is None:
                 target_size = self.max_mem
             self.curr_mem = self._curr_mem()
-            self.policy.reduce(target_size=target_size)
+            if self.policy.has_limit():
+                self.policy.reduce(target_size=target_size)
 
     def clear(self):
         """Clear the cache"""
-- 
2.43.0


From 239aaf7125a1d2aed58a33969582d4f864e8d718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 03/56] fix: do not evict other weights for a matrix that
 cannot be cached

In non-strict mode weights larger than the memory cache are documented as not
loaded into the cache, but with the lru policy all other matrices were evicted
before the new one was.
---
 src/earthkit/regrid/utils/memcache.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index 173c2f5..6f31085 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -243,9 +243,12 @@ class MemoryCache:
             self.misses += 1
 
             if data[0] is not None:
-                self.items[key] = _MemoryItem(data, self.size_fn(data[0]), time.time())
-                self.curr_mem += self.items[key].size
-                self._reduce()
+                size = self.size_fn(data[0])
+                # weights that cannot fit are not cached, and nothing is evicted for them
+                if not self.policy.has_limit() or size <= self.max_mem:
+                    self.items[key] = _MemoryItem(data, size, time.time())
+                    self.curr_mem += self.items[key].size
+                    self._reduce()
 
             return data
 
-- 
2.43.0


From df391a634108bd31b0c67b62b8ce1a6293ccdcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 04/56] fix: find the global area of lat-lon grids whose
 increments carry float noise

---
 src/earthkit/regrid/gridspec.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/gridspec.py b/src/earthkit/regrid/gridspec.py
index 0a87c03..a0d5ace 100644
--- a/src/earthkit/regrid/gridspec.py
+++ b/src/earthkit/regrid/gridspec.py
@@ -184,7 +184,9 @@ class LLGridSpec(GridSpec):
 
         if "global" not in gs and "area" not in gs:
             self["global"] = 1
-            self["area"] = LLGridSpec.GLOBAL_AREAS.get((self["grid"][0], self["grid"][1]), self.DEFAULT_AREA)
+            # the increments can be the result of a computation, e.g. 0.1 * 7
+            key = (round(self["grid"][0], 5), round(self["grid"][1], 5))
+            self["area"] = LLGridSpec.GLOBAL_AREAS.get(key, self.DEFAULT_AREA)
 
         self.setdefault("area", self.DEFAULT_AREA)
 
-- 
2.43.0


From 46575d791a01f53fafd4eabf1f70dff8e4c59eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 05/56] fix: do not take a latitude band of a reduced Gaussian
 grid for the global grid

---
 src/earthkit/regrid/gridspec.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/gridspec.py b/src/earthkit/regrid/gridspec.py
index a0d5ace..8488f2b 100644
--- a/src/earthkit/regrid/gridspec.py
+++ b/src/earthkit/regrid/gridspec.py
@@ -298,6 +298,14 @@ class ReducedGGGridSpec(GridSpec):
     def east(self):
         return self["area"][3]
 
+    @property
+    def north(self):
+        return self["area"][0]
+
+    @property
+    def south(self):
+        return self["area"][2]
+
     @property
     def dx(self):
         if self.octahedral:
@@ -322,7 +330,10 @@ class ReducedGGGridSpec(GridSpec):
 
     def is_global_ns(self):
         if self._global_ns is None:
-            self._global_ns = True
+            # the first and last Gaussian latitudes are at most 0.766 * 90/N degrees
+            # away from the poles
+            dy = 0.77 * 90.0 / self.N
+            self._global_ns = self.north > 90.0 - dy and self.south < -90.0 + dy
         return self._global_ns
 
     def _inspect_grid(self):
-- 
2.43.0


From fc1b9f4c619ef41176a726c3ace2e1549b7dea01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 06/56] fix: regrid onto grids whose inventory entry does not
 record a shape

---
 src/earthkit/regrid/backends/db.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 5bd30a9..0937da1 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -483,7 +483,9 @@ class MatrixDb:
     def _create_matrix_from_entry(self, entry):
         if entry is not None:
             z = self.load_matrix(entry)
-            return z, entry["output"]["shape"]
+            # the shape is not recorded for all the unstructured grids
+            shape = entry["output"].get("shape", None) or [z.shape[0]]
+            return z, shape
         return None, None
 
     def find_entry(self, gridspec_in, gridspec_out, method):
-- 
2.43.0


From cb46b3e32055d8ac5b89a2714c39e68925d6b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 07/56] fix: reject malformed gridspecs so that they cannot
 break the lookup of other entries

---
 src/earthkit/regrid/gridspec.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/earthkit/regrid/gridspec.py b/src/earthkit/regrid/gridspec.py
index 8488f2b..5c4e238 100644
--- a/src/earthkit/regrid/gridspec.py
+++ b/src/earthkit/regrid/gridspec.py
@@ -9,6 +9,7 @@
 
 import logging
 import re
+from numbers import Real
 
 import numpy as np
 
@@ -23,6 +24,10 @@ RGG_PATTERN = re.compile(r"[OoNn]\d+")
 ORCA_PATTERN = re.compile(r"^e?ORCA\d+_[FTUV]$")
 
 
+def _is_number_list(v, n):
+    return isinstance(v, list) and len(v) == n and all(isinstance(x, Real) for x in v)
+
+
 # NOTE: this is a temporary code until the full gridspec
 # implementation is available via earthkit-geo.
 
@@ -65,9 +70,13 @@ class GridSpec(dict):
         GridSpec._normalise(gs)
 
         t_name, t = GridSpec._infer_spec_type(gs)
-        if t is None:
+        if t is None or not t.type_match(gs.get("grid")):
             raise ValueError(f"Unsupported gridspec={d}")
 
+        area = gs.get("area", GridSpec.DEFAULT_AREA)
+        if not _is_number_list(area, 4):
+            raise ValueError(f"Invalid {area=} in gridspec={d}")
+
         gs["type"] = t_name
         return t(gs)
 
@@ -75,7 +84,7 @@ class GridSpec(dict):
     def _infer_spec_type(spec):
         spec_type = spec.get("type", None)
         if spec_type is None:
-            grid = spec["grid"]
+            grid = spec.get("grid", None)
             for k, gs in GRIDSPEC_TYPES.items():
                 if gs.type_match(grid):
                     return k, gs
@@ -252,9 +261,7 @@ class LLGridSpec(GridSpec):
 
     @staticmethod
     def type_match(grid):
-        if isinstance(grid, list) and len(grid) == 2:
-            return True
-        return False
+        return _is_number_list(grid, 2)
 
     def is_regular_ll(self):
         return True
@@ -390,6 +397,7 @@ class HealpixGridSpec(GridSpec):
         self.setdefault("area", self.DEFAULT_AREA)
         self._order = None
         self._N = None
+        self._inspect_grid()
 
     @property
     def west(self):
-- 
2.43.0


From 44ed0773f91b795070012c8c8373bef2e5638fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 08/56] fix: cache summary fails while a file is being created
 or after a failed creation

---
 src/earthkit/regrid/utils/caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 582b31e..3fd207f 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -555,7 +555,8 @@ class CacheManager(threading.Thread):
         count = len(result)
         size = 0
         for r in result:
-            size += r.get("size", 0)
+            # the size is not known for files being created
+            size += r.get("size", 0) or 0
         return count, size
 
 
-- 
2.43.0


From b258de5154d152af6c2f4ba13bd917a58bfd8d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 09/56] fix: purge the empty files of the cache too

---
 src/earthkit/regrid/utils/caching.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 3fd207f..346a2aa 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -204,8 +204,10 @@ class CacheManager(threading.Thread):
         if matcher is None:
             self._housekeeping(clean=True)
             # _update_cache(clean=True)
-            self._decache(self._cache_size(), purge=True)
-            return
+            # the size is not known for files being created
+
+            def matcher(entry):
+                return entry["size"] is not None
 
         dump = self._dump_cache_database(matcher)
         for entry in dump:
-- 
2.43.0


From 5f4715c6055c3969d8607ce04b20324cd3391bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 10/56] fix: remove the cache entry of a file that could not be
 created

---
 src/earthkit/regrid/utils/caching.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 346a2aa..dec32a9 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -250,6 +250,7 @@ class CacheManager(threading.Thread):
                     path,
                 ),
             )
+            return db.execute("SELECT changes()").fetchone()[0]
 
     def _update_cache(self, clean=False):
         """Update cache size and size of each file in the database ."""
@@ -1022,10 +1023,17 @@ def cache_file(
             lock = path + ".lock"
             with FileLock(lock):
                 if not os.path.exists(path):  # Check again, another thread/process may have created the file
-                    owner_data = create(path + ".tmp", args)
-                    os.rename(path + ".tmp", path)
+                    try:
+                        owner_data = create(path + ".tmp", args)
+                        os.rename(path + ".tmp", path)
+                    except BaseException:
+                        CACHE._decache_file(path)
+                        raise
                     LOG.info(f"cache file created: {path=}")
-                    CACHE._update_entry(path, owner_data)
+                    if CACHE._update_entry(path, owner_data) == 0:
+                        # the entry was removed in the meantime
+                        CACHE._register_cache_file(path, owner, args)
+                        CACHE._update_entry(path, owner_data)
                     CACHE.check_size()
 
             try:
-- 
2.43.0


From ac0bb8b3da5e0976f73e45dee816cec835bcedae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 11/56] fix: do not build a cache file upon the remains of an
 interrupted creation

---
 src/earthkit/regrid/utils/caching.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index dec32a9..3ebaf7d 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -935,6 +935,13 @@ class Cache:
 CACHE = Cache()
 
 
+def _remove(path):
+    if os.path.isdir(path) and not os.path.islink(path):
+        shutil.rmtree(path)
+    elif os.path.lexists(path):
+        os.unlink(path)
+
+
 def cache_file(
     owner: str,
     create,
@@ -1023,6 +1030,8 @@ def cache_file(
             lock = path + ".lock"
             with FileLock(lock):
                 if not os.path.exists(path):  # Check again, another thread/process may have created the file
+                    # a previous attempt may have been interrupted
+                    _remove(path + ".tmp")
                     try:
                         owner_data = create(path + ".tmp", args)
                         os.rename(path + ".tmp", path)
-- 
2.43.0


From 4134a1a27e3454a05322b120e7d7d98bc908cb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 12/56] fix: a killed creation stopped the eviction of all the
 files created later

---
 src/earthkit/regrid/utils/caching.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 3ebaf7d..bebcd45 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -191,7 +191,9 @@ class CacheManager(threading.Thread):
         So we do not purge files being downloaded.
         """
         with self.connection as db:
-            latest = db.execute("SELECT MIN(creation_date) FROM cache WHERE size IS NULL").fetchone()[0]
+            # entries without size can also be left behind by processes that were killed
+            rows = db.execute("SELECT creation_date, path FROM cache WHERE size IS NULL").fetchall()
+            latest = min((date for date, path in rows if self._being_created(path)), default=None)
             if latest is None:
                 latest = db.execute("SELECT MAX(creation_date) FROM cache WHERE size IS NOT NULL").fetchone()[
                     0
@@ -200,6 +202,20 @@ class CacheManager(threading.Thread):
                 latest = datetime.datetime.now()
             return latest
 
+    @staticmethod
+    def _being_created(path):
+        from filelock import FileLock
+        from filelock import Timeout
+
+        lock = path + ".lock"
+        if not os.path.exists(lock):
+            return False
+        try:
+            with FileLock(lock, timeout=0):
+                return False
+        except Timeout:
+            return True
+
     def _purge_cache(self, matcher=None):
         if matcher is None:
             self._housekeeping(clean=True)
-- 
2.43.0


From c3dde9adaa4c678057fd9f1c567f15d889508a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 13/56] fix: respect temporary-directory-root when the cache
 policy is off

---
 src/earthkit/regrid/utils/caching.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index bebcd45..6dc8a63 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -584,6 +584,7 @@ class CachePolicy(metaclass=ABCMeta):
         "cache-policy",
         "user-cache-directory",
         "temporary-cache-directory-root",
+        "temporary-directory-root",
         "maximum-cache-disk-usage",
         "maximum-cache-size",
     ]
-- 
2.43.0


From 03c48b50114785671b713864a781aecde6172b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 14/56] fix: do not complete an interrupted download with the
 bytes of a newer file

---
 src/earthkit/regrid/utils/download.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/download.py b/src/earthkit/regrid/utils/download.py
index 9049f47..d64a994 100644
--- a/src/earthkit/regrid/utils/download.py
+++ b/src/earthkit/regrid/utils/download.py
@@ -53,7 +53,8 @@ def download_and_cache(
         # statistics_gatherer=record_statistics,
         # progress_bar=progress_bar,
         progress_bar=progress_bar,
-        resume_transfers=True,
+        # the remains of an earlier attempt may belong to another version of the file
+        resume_transfers=False,
         override_target_file=False,
         download_file_extension=".download",
         maximum_retries=maximum_retries,
-- 
2.43.0


From 1f1fd07f0ca4c0ca5bc25b48f48850179dfffab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 15/56] fix: return the path of local files in
 download_and_cache()

---
 src/earthkit/regrid/utils/download.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/download.py b/src/earthkit/regrid/utils/download.py
index d64a994..066a9c9 100644
--- a/src/earthkit/regrid/utils/download.py
+++ b/src/earthkit/regrid/utils/download.py
@@ -69,7 +69,7 @@ def download_and_cache(
 
     path = downloader.local_path()
     if path is not None:
-        return
+        return path
 
     def out_of_date(url, path, cache_data):
         if CONFIG.get("check-out-of-date-urls") is False:
-- 
2.43.0


From 7b8e756aeb160127802c43b0753866f73f374a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 16/56] fix: do not expose an empty index while it is being
 loaded or when that failed

---
 src/earthkit/regrid/backends/db.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 0937da1..808a131 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -439,9 +439,10 @@ class MatrixDb:
         return self._index
 
     def _load_index(self):
-        self._index = MatrixIndex()
         path = self._accessor.index_path()
-        self._index.load(path)
+        index = MatrixIndex()
+        index.load(path)
+        self._index = index
 
     def _method_alias(self, method):
         for k, v in _METHOD_ALIAS.items():
-- 
2.43.0


From 27002a32b219cbffd028881fc531ae0e4be20897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 17/56] fix: check for a newer remote index again when its
 download failed

---
 src/earthkit/regrid/backends/db.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 808a131..57e4b99 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -126,6 +126,7 @@ class UrlAccessor(MatrixAccessor):
         from earthkit.regrid.utils.caching import cache_file
 
         url = os.path.join(self._url, _INDEX_FILENAME)
+        checked = False
 
         def _compare_sha(args, path, owner_data):
             """Decide if the index file should be downloaded and cached again."""
@@ -138,8 +139,9 @@ class UrlAccessor(MatrixAccessor):
             if local_sha is None:
                 return True
 
+            nonlocal checked
             remote_sha = self._remote_sha()
-            self._checked_remote = True
+            checked = True
 
             if local_sha != remote_sha:
                 LOG.info(
@@ -161,8 +163,9 @@ class UrlAccessor(MatrixAccessor):
         def _force_download(args, path, owner_data):
             """Decide if the index file should be downloaded and cached again."""
             LOG.info("UrlAccessor: forcefully download remote checksum and new index file")
+            nonlocal checked
             self._remote_sha()
-            self._checked_remote = True
+            checked = True
             return True
 
         def _create(target, args):
@@ -202,6 +205,10 @@ class UrlAccessor(MatrixAccessor):
             extension=".cache",
         )
 
+        # only when the new index file, if any, could be downloaded
+        if checked:
+            self._checked_remote = True
+
         LOG.info(f"UrlAccessor: index file={path}")
         return path
 
-- 
2.43.0


From fc2e8ceb85489d6c51dd839cf3f377159ffd4ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 18/56] fix: do not cache a remote index file that cannot be
 used

---
 src/earthkit/regrid/backends/db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 57e4b99..f12d38e 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -185,6 +185,9 @@ class UrlAccessor(MatrixAccessor):
                 data = f.read()
                 sha = make_sha(data)
 
+            # an index file that cannot be used must not be cached
+            MatrixIndex().load(target)
+
             # the returned data will be stored in the cache in the entry's owner_data
             LOG.info(f"UrlAccessor: index file checksum={sha}")
             return {"sha256": sha}
-- 
2.43.0


From 3131bc1f2348fd6cafc2a5f0d6e1b695ea995a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 19/56] fix: finding an orphan made the cache evict the file
 just created

---
 src/earthkit/regrid/utils/caching.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 6dc8a63..127f95b 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -195,9 +195,10 @@ class CacheManager(threading.Thread):
             rows = db.execute("SELECT creation_date, path FROM cache WHERE size IS NULL").fetchall()
             latest = min((date for date, path in rows if self._being_created(path)), default=None)
             if latest is None:
-                latest = db.execute("SELECT MAX(creation_date) FROM cache WHERE size IS NOT NULL").fetchone()[
-                    0
-                ]
+                # orphans just found must not make the latest file removable
+                latest = db.execute(
+                    "SELECT MAX(creation_date) FROM cache WHERE size IS NOT NULL AND owner!='orphans'"
+                ).fetchone()[0]
             if latest is None:
                 latest = datetime.datetime.now()
             return latest
-- 
2.43.0


From f6bb9674a20247ccf4af977f14bcdc713fc1c0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:03 +0000
Subject: [PATCH 20/56] fix: remove temporary cache directories only when the
 cache has finished with them

---
 src/earthkit/regrid/utils/caching.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 127f95b..9b80a46 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -799,11 +799,11 @@ class Cache:
         if self._policy is None:
             self._policy = CachePolicy.from_config()
             LOG.debug(f"Cache: created cache policy={self._policy}")
-            if self._policy.managed():
-                with self._manager_lock:
-                    if self._manager is None:
-                        self._manager = CacheManager()
-                        self._manager.start()
+            with self._manager_lock:
+                if self._manager is None and self._policy.managed():
+                    self._manager = CacheManager()
+                    self._manager.start()
+                if self._manager is not None:
                     self._call_manager_config_changed()
 
     def _config_changed(self):
@@ -812,8 +812,12 @@ class Cache:
             with self._policy_lock:
                 # Check again, another thread/process may have modified the policy
                 if self._policy.outdated():
+                    # the temporary directory of the old policy must not be removed before
+                    # the manager has finished working on it
+                    old = self._policy
                     self._policy = None
                     self._make_policy()
+                    del old
         elif self.policy.update() and self.policy.managed():
             with self._manager_lock:
                 self._call_manager_config_changed()
-- 
2.43.0


From 2fc207913afac96d608587b56219a1380f7275cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 21/56] fix: apply the cache size limit to files of killed
 processes too

---
 src/earthkit/regrid/utils/caching.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 9b80a46..9d24057 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -514,6 +514,8 @@ class CacheManager(threading.Thread):
             # Check absolute limit
             maximum = self._policy.maximum_cache_size()
             if maximum is not None:
+                # the size is not known for files whose process was killed after creating them
+                self._update_cache()
                 size = self._cache_size()
                 if size > maximum:
                     self._housekeeping()
-- 
2.43.0


From 936321c3f5db6ba42b11b539dda3cbbb59d6c481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:23 +0000
Subject: [PATCH 22/56] fix: create one temporary directory when threads use
 the cache with policy off

---
 src/earthkit/regrid/utils/caching.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 9d24057..46d751a 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -686,15 +686,17 @@ class NoCachePolicy(CachePolicy):
     OUTDATED_CHECK_KEYS = ["cache-policy", "temporary-directory-root"]
     _name = "off"
     _dir = None
+    _dir_lock = threading.Lock()
 
     def managed(self):
         return False
 
     def directory(self):
         if self._dir is None:
-            if self._dir is None:
-                root_dir = self._expand_path(self._config.get("temporary-directory-root"))
-                self._dir = temp_directory(dir=root_dir)
+            with self._dir_lock:
+                if self._dir is None:
+                    root_dir = self._expand_path(self._config.get("temporary-directory-root"))
+                    self._dir = temp_directory(dir=root_dir)
         return self._dir.path
 
     def use_message_position_index_cache(self):
-- 
2.43.0


From a504d11c326ed9fb36dde2a9d705c26e62511aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 23/56] fix: accept zero as size limit of the in-memory weights
 cache

With the lru and largest policies config.set() raised ValueError for a zero
limit, but only after having stored and saved the value. From then on the
package could not even be imported. A cache of zero size now keeps nothing.
---
 src/earthkit/regrid/utils/memcache.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index 6f31085..23e8927 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -115,8 +115,8 @@ class LRUPolicy(MemoryCachePolicy):
 
     def check(self):
         # None means no limit
-        if self.cache.max_mem is not None and self.cache.max_mem <= 0:
-            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
+        if self.cache.max_mem is not None and self.cache.max_mem < 0:
+            raise ValueError(f"Cannot use {self.name} policy with max_mem<0")
 
     def reduce(self, target_size):
         # must be called within a lock
@@ -142,8 +142,8 @@ class LargestPolicy(MemoryCachePolicy):
 
     def check(self):
         # None means no limit
-        if self.cache.max_mem is not None and self.cache.max_mem <= 0:
-            raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
+        if self.cache.max_mem is not None and self.cache.max_mem < 0:
+            raise ValueError(f"Cannot use {self.name} policy with max_mem<0")
 
     def reduce(self, target_size):
         # must be called within a lock
-- 
2.43.0


From aa07ab18952effca97d02b2c2d5bfe247b6a553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 24/56] fix: leave a temporary config when an observer fails on
 entering it

The temporary settings stayed in force forever, since the settings were
pushed and the observers notified outside of the try block.
---
 src/earthkit/regrid/utils/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 71823f0..bc62c3d 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -232,8 +232,8 @@ for k, v in CONFIG_AND_HELP.items():
 def new_config(s):
     """Context manager to create new config"""
     CONFIG._stack.append(s)
-    CONFIG._notify()
     try:
+        CONFIG._notify()
         yield None
     finally:
         CONFIG._stack.pop()
-- 
2.43.0


From afa1f6de20fe244094956fbaa306a59170bbbcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 25/56] fix: set several config options at once or none of them

When one of the values passed to config.set() was rejected the options
preceding it were still changed, without saving them or notifying the
observers.
---
 src/earthkit/regrid/utils/config.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index bc62c3d..9aa537c 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -344,21 +344,27 @@ class Config:
             value: [type]
                 [description]
         """
+        values = {}
         if len(args) == 0:
             assert len(kwargs) > 0
             for k, v in kwargs.items():
-                self._set(k.replace("_", "-"), v)
-            self._changed()
+                k = k.replace("_", "-")
+                values[k] = self._check(k, v)
         else:
             if len(args) == 1 and isinstance(args[0], dict):
                 for k, v in args[0].items():
-                    self._set(k, v)
+                    values[k] = self._check(k, v)
             else:
-                self._set(*args, **kwargs)
+                values[args[0]] = self._check(*args, **kwargs)
+
+        # nothing is changed unless all the values are valid
+        self._config.update(values)
+        LOG.debug(f"set {values} stack_size={len(self._stack)}")
         self._changed()
 
-    def _set(self, name: str, *args, **kwargs):
-        """[summary]
+    def _check(self, name: str, *args, **kwargs):
+        """Return the value to store for a config option, raise an exception
+        when it is not valid.
 
         Parameters
         ----------
@@ -422,9 +428,7 @@ class Config:
                 raise TypeError("Config option '%s' must be of type '%s'" % (name, klass))
 
         config_item.validate(name, value)
-        self._config[name] = value
-
-        LOG.debug(f"_set {name}={value} stack_size={len(self._stack)}")
+        return value
 
     @forward
     def reset(self, name: str = None):
-- 
2.43.0


From f6ce34c060d9fa365dbfbb2d2c4a228590231c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 26/56] fix: store plain values in the config

A Path or a numpy integer used as value was saved as a Python object. The
config file could not be loaded again and all the options were lost.
---
 src/earthkit/regrid/utils/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 9aa537c..fa4ee0d 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -423,6 +423,9 @@ class Config:
             value = args[0]
             # Check if value is properly formatted for getter
             getattr(self, getter)(name, value, none_ok)
+            # only plain values can be loaded back from the config file
+            if value is not None and type(value) not in (bool, int, str):
+                value = str(value)
         else:
             if not isinstance(value, klass):
                 raise TypeError("Config option '%s' must be of type '%s'" % (name, klass))
-- 
2.43.0


From d8ef39e81fe19acb735b5405486d3bfa119aa08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 27/56] fix: parse the boolean config options given as strings

The environment variables of these options always enabled them, even when set
to False or 0, and so did config.set() with the string False.
---
 src/earthkit/regrid/utils/config.py   |  7 +++++++
 src/earthkit/regrid/utils/humanize.py | 12 ++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index fa4ee0d..0d4c068 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -20,6 +20,7 @@ import yaml
 
 from earthkit.regrid import __version__ as VERSION
 from earthkit.regrid.utils.html import css
+from earthkit.regrid.utils.humanize import as_bool
 from earthkit.regrid.utils.humanize import as_bytes
 from earthkit.regrid.utils.humanize import as_percent
 from earthkit.regrid.utils.humanize import as_seconds
@@ -193,10 +194,12 @@ CONFIG_AND_HELP = {
     "check-out-of-date-urls": _(
         False,
         "Perform a HTTP request to check if the remote version of a cache file has changed",
+        getter="_as_bool",
     ),
     "download-out-of-date-urls": _(
         False,
         "Re-download URLs when the remote version of a cached file as been changed",
+        getter="_as_bool",
     ),
     "maximum-weights-memory-cache-size": _(
         "500MB",
@@ -218,6 +221,7 @@ CONFIG_AND_HELP = {
         """Raise exception if the weights cannot be fitted into the in-memory cache.
         Only used when ``weights-memory-cache-policy`` is ``"largest"`` or ``"lru"``.
         See :ref:`mem_cache` for more information.""",
+        getter="_as_bool",
     ),
 }
 
@@ -540,6 +544,9 @@ class Config:
                 exc_info=True,
             )
 
+    def _as_bool(self, name, value, none_ok):
+        return as_bool(value, name=name, none_ok=none_ok)
+
     def _as_bytes(self, name, value, none_ok):
         return as_bytes(value, name=name, none_ok=none_ok)
 
diff --git a/src/earthkit/regrid/utils/humanize.py b/src/earthkit/regrid/utils/humanize.py
index 5b8a4f8..d431e83 100644
--- a/src/earthkit/regrid/utils/humanize.py
+++ b/src/earthkit/regrid/utils/humanize.py
@@ -109,3 +109,15 @@ def as_bytes(value, name=None, none_ok=False):
         units[u.lower()] = n
 
     return as_number(value, name, units, none_ok)
+
+
+def as_bool(value, name=None, none_ok=False):
+    if value is None and none_ok:
+        return None
+
+    v = str(value).strip().lower()
+    if v in ("true", "yes", "on", "1"):
+        return True
+    if v in ("false", "no", "off", "0"):
+        return False
+    raise ValueError(f"{name}: invalid boolean value {value}")
-- 
2.43.0


From 7172580cb9e9d4abb860f387ba4f27305faca227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:25 +0000
Subject: [PATCH 28/56] fix: ignore the items of a config file that cannot be
 used

A config file with a key that is not a string or with an invalid value, e.g. an
unknown in-memory cache policy, prevented the package from being imported.
---
 src/earthkit/regrid/utils/config.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 0d4c068..77cb5b3 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -676,6 +676,27 @@ def _init_config_file():
     return config_file
 
 
+def _valid_items(items, path):
+    """Return the items of a config file that can be used"""
+    checker = Config(None, DEFAULTS)
+    r = {}
+    for k, v in items.items():
+        if k in CONFIG_AND_HELP:
+            try:
+                if v is None and not CONFIG_AND_HELP[k].none_ok:
+                    raise ValueError(f"Config option '{k}' cannot be None")
+                with warnings.catch_warnings():
+                    warnings.simplefilter("ignore")
+                    v = checker._check(k, v)
+            except Exception as e:
+                LOG.error(f"Ignore invalid value in earthkit-regrid config {path}: {e}")
+                continue
+        elif not isinstance(k, str):
+            continue
+        r[k] = v
+    return r
+
+
 def _init_config(config_yaml):
     save = False
     config = dict(**DEFAULTS)
@@ -685,12 +706,13 @@ def _init_config(config_yaml):
             if not isinstance(s, dict):
                 s = {}
 
-            config.update(s)
+            config.update(_valid_items(s, config_yaml))
 
         # if s != config:
         #     save = True
 
-        if config.get("version") < VERSION:
+        version = config.get("version")
+        if isinstance(version, str) and version < VERSION:
             save = True
 
     except Exception:
-- 
2.43.0


From d1f54e7868a5464553362abfa0401f140eff1bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:25 +0000
Subject: [PATCH 29/56] fix: restore the umask when the config directory cannot
 be created

---
 src/earthkit/regrid/utils/config.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 77cb5b3..16a70bf 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -654,8 +654,10 @@ def _init_config_file():
         config_dir = os.path.dirname(config_file)
         if not os.path.exists(config_dir):
             ori_mask = os.umask(0o077)
-            os.makedirs(config_dir, 0o700)
-            os.umask(ori_mask)
+            try:
+                os.makedirs(config_dir, 0o700)
+            finally:
+                os.umask(ori_mask)
     except Exception:
         LOG.error(
             f"Cannot create earthkit-regrid config directory={config_dir}",
-- 
2.43.0


From c39b503e31aa46fabf04c707a8823728d89a1f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 30/56] fix: keep the saved config when saving it fails or is
 interrupted

The file was truncated before being written, so a full disk or a killed process
lost all the settings.
---
 src/earthkit/regrid/utils/config.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 16a70bf..b42c710 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -10,6 +10,8 @@
 import functools
 import logging
 import os
+import shutil
+import threading
 import warnings
 from abc import ABCMeta
 from abc import abstractmethod
@@ -259,8 +261,10 @@ def save_config(path, config):
     from filelock import FileLock
 
     lock = path + ".lock"
+    target = os.path.realpath(path)
+    tmp = f"{target}.{os.getpid()}-{threading.get_ident()}.tmp"
     with FileLock(lock):
-        with open(path, "w") as f:
+        with open(tmp, "w") as f:
             print("# This file is automatically generated", file=f)
             print(file=f)
 
@@ -277,6 +281,11 @@ def save_config(path, config):
             print(file=f)
             yaml.dump({"version": VERSION}, f, default_flow_style=False)
             print(file=f)
+
+        # a failed or interrupted save must not damage the saved config
+        if os.path.exists(target):
+            shutil.copymode(target, tmp)
+        os.replace(tmp, target)
     try:
         os.unlink(lock)
     except OSError:
-- 
2.43.0


From 3cd721d992aed4bd7fffd76773ce3bdf58d870f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 31/56] fix: print negative sizes

humanize.bytes(-4096) gave '--4096'.
---
 src/earthkit/regrid/utils/humanize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/humanize.py b/src/earthkit/regrid/utils/humanize.py
index d431e83..bce45f8 100644
--- a/src/earthkit/regrid/utils/humanize.py
+++ b/src/earthkit/regrid/utils/humanize.py
@@ -18,7 +18,7 @@ def bytes(n):
     """
     if n < 0:
         sign = "-"
-        n -= 0
+        n = -n
     else:
         sign = ""
 
-- 
2.43.0


From 9988aadb535851bc589c6a9974507477849a5a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 32/56] fix: pass the interpolation options on to MIR

The array interface dropped nearest_method, distance, distance_tolerance
and nclosest. The GRIB interface passed values MIR rejects: the default
nearest_method ("automatic"), the documented names with underscores and
integer distances. The documented extra options were not accepted.
---
 src/earthkit/regrid/backends/mir.py | 45 +++++++++++++++++------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/earthkit/regrid/backends/mir.py b/src/earthkit/regrid/backends/mir.py
index 98fb6a0..df1759f 100644
--- a/src/earthkit/regrid/backends/mir.py
+++ b/src/earthkit/regrid/backends/mir.py
@@ -25,6 +25,20 @@ class MirBackend(Backend):
 
         raise ValueError(f"Invalid area format: {area}")
 
+    @staticmethod
+    def make_options(interpolation, nearest_method, distance, distance_tolerance, nclosest, **kwargs):
+        options = {
+            "interpolation": interpolation,
+            "distance": float(distance),
+            "distance_tolerance": float(distance_tolerance),
+            "nclosest": nclosest,
+            **kwargs,
+        }
+        # MIR does not know "automatic", it is what it does when the option is left out
+        if nearest_method != "automatic":
+            options["nearest_method"] = nearest_method.replace("_", "-")
+        return options
+
     @staticmethod
     def adjust_options(grid, kwargs):
         # TODO: remove this once we have a better way to handle area in gridspec
@@ -50,26 +64,22 @@ class MirBackend(Backend):
         distance=1,
         distance_tolerance=1,
         nclosest=4,
+        **kwargs,
     ):
         import mir
 
-        kwargs = {
-            "interpolation": interpolation,
-            "nearest_method": nearest_method,
-            "distance": distance,
-            "distance_tolerance": distance_tolerance,
-            "nclosest": nclosest,
-        }
+        options = self.make_options(
+            interpolation, nearest_method, distance, distance_tolerance, nclosest, **kwargs
+        )
 
-        out_grid, kwargs = self.adjust_options(out_grid, {})
+        out_grid, options = self.adjust_options(out_grid, options)
 
         input = mir.ArrayInput(values, in_grid)
         out = mir.ArrayOutput()
 
         job = mir.Job()
         job.set("grid", out_grid)
-        job.set("interpolation", interpolation)  # NOTE: needs generalisation
-        for k, v in kwargs.items():
+        for k, v in options.items():
             job.set(k, v)
 
         job.execute(input, out)
@@ -86,27 +96,24 @@ class MirBackend(Backend):
         distance=1,
         distance_tolerance=1,
         nclosest=4,
+        **kwargs,
     ):
         from io import BytesIO
 
         import mir
 
-        kwargs = {
-            "interpolation": interpolation,
-            "nearest_method": nearest_method,
-            "distance": distance,
-            "distance_tolerance": distance_tolerance,
-            "nclosest": nclosest,
-        }
+        options = self.make_options(
+            interpolation, nearest_method, distance, distance_tolerance, nclosest, **kwargs
+        )
 
-        out_grid, kwargs = self.adjust_options(grid, kwargs)
+        out_grid, options = self.adjust_options(grid, options)
 
         in_data = mir.GribMemoryInput(message)
         out = BytesIO()
 
         job = mir.Job()
         job.set("grid", out_grid)
-        for k, v in kwargs.items():
+        for k, v in options.items():
             job.set(k, v)
 
         job.execute(in_data, out)
-- 
2.43.0


From 554fc8b869861171f87d42ca73b6b6c144ba4238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:09 +0000
Subject: [PATCH 33/56] fix: accept arrays of any memory layout and numeric
 type with MIR

Fortran-ordered, sliced or transposed arrays and integer arrays were rejected
by MIR, while they are accepted with the precomputed weights.
---
 src/earthkit/regrid/backends/mir.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/backends/mir.py b/src/earthkit/regrid/backends/mir.py
index df1759f..86e32a8 100644
--- a/src/earthkit/regrid/backends/mir.py
+++ b/src/earthkit/regrid/backends/mir.py
@@ -39,6 +39,15 @@ class MirBackend(Backend):
             options["nearest_method"] = nearest_method.replace("_", "-")
         return options
 
+    @staticmethod
+    def normalise_values(values):
+        """MIR only takes contiguous arrays of native float32 or float64"""
+        import numpy as np
+
+        if values.dtype not in (np.float32, np.float64) and values.dtype.kind in "fiu":
+            values = values.astype(np.float64)
+        return np.ascontiguousarray(values)
+
     @staticmethod
     def adjust_options(grid, kwargs):
         # TODO: remove this once we have a better way to handle area in gridspec
@@ -74,7 +83,7 @@ class MirBackend(Backend):
 
         out_grid, options = self.adjust_options(out_grid, options)
 
-        input = mir.ArrayInput(values, in_grid)
+        input = mir.ArrayInput(self.normalise_values(values), in_grid)
         out = mir.ArrayOutput()
 
         job = mir.Job()
-- 
2.43.0


From a39a3203018e0f1119302ca5fb1535ba3e3ab321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 34/56] fix: regridded integer Xarray variables are not
 truncated to integers

---
 src/earthkit/regrid/data/xarray.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 08fde0c..21805f4 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -313,6 +313,9 @@ class XarrayDataHandler(DataHandler):
         method = _RegridMethod(in_grid.grid_spec, out_geo.grid_spec, **kwargs)
 
         def _regrid(da):
+            # the interpolated values are floating point numbers, even when the input values are integers
+            output_dtype = da.dtype if da.dtype.kind == "f" else float
+
             return xr.apply_ufunc(
                 method,
                 da,
@@ -325,7 +328,7 @@ class XarrayDataHandler(DataHandler):
                     "output_sizes": {dim: out_geo.shape[i] for i, dim in enumerate(out_dims)},
                     "allow_rechunk": True,
                 },
-                output_dtypes=[da.dtype],
+                output_dtypes=[output_dtype],
             )
 
         if isinstance(values, xr.Dataset):
-- 
2.43.0


From 8edb4c88842388fd2d043e3c65e1f8e47464a55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 35/56] fix: the order of the dimensions of an Xarray Dataset
 does not matter for regridding its variables

---
 src/earthkit/regrid/data/xarray.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 21805f4..9de2000 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -188,6 +188,14 @@ def xr_geo_dims(ds):
     """
     Determine the geographical dimensions of the dataset/dataarray.
     """
+    data_vars = getattr(ds, "data_vars", None)
+    if data_vars:
+        # the order of the dimensions of a Dataset is not the one of the dimensions of its variables
+        geo_dims = [xr_geo_dims(var) for var in data_vars.values()]
+        if any(d != geo_dims[0] for d in geo_dims):
+            raise ValueError("Dataset geography is not supported.")
+        return geo_dims[0]
+
     dims = list(ds.sizes.keys())
     if len(ds.dims) >= 1:
         if dims[-1] == "values":
-- 
2.43.0


From ab559dbe5cf0723608f8147f57989a80d0afd3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 36/56] fix: a missing grid is rejected with ValueError by the
 array, GRIB message and legacy interfaces

---
 src/earthkit/regrid/data/grib.py  | 3 +++
 src/earthkit/regrid/data/numpy.py | 5 +++++
 src/earthkit/regrid/gridspec.py   | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/src/earthkit/regrid/data/grib.py b/src/earthkit/regrid/data/grib.py
index 6b9ab2b..450347f 100644
--- a/src/earthkit/regrid/data/grib.py
+++ b/src/earthkit/regrid/data/grib.py
@@ -28,6 +28,9 @@ class GribMessageDataHandler(DataHandler):
         return False
 
     def regrid(self, values, **kwargs):
+        if kwargs.get("grid", None) is None:
+            raise ValueError("Missing 'grid' argument")
+
         backend = self.backend_from_kwargs(kwargs)
         if hasattr(backend, "regrid_grib"):
             if not isinstance(values, bytes):
diff --git a/src/earthkit/regrid/data/numpy.py b/src/earthkit/regrid/data/numpy.py
index 48c680a..a1f9c35 100644
--- a/src/earthkit/regrid/data/numpy.py
+++ b/src/earthkit/regrid/data/numpy.py
@@ -24,6 +24,11 @@ class NumpyDataHandler(DataHandler):
     def regrid(self, values, **kwargs):
         in_grid = kwargs.pop("in_grid")
         out_grid = kwargs.pop("out_grid")
+        if in_grid is None:
+            raise ValueError("Missing 'in_grid' argument")
+        if out_grid is None:
+            raise ValueError("Missing 'out_grid' argument")
+
         backend = self.backend_from_kwargs(kwargs)
         return backend.regrid(values, in_grid, out_grid, **kwargs)
 
diff --git a/src/earthkit/regrid/gridspec.py b/src/earthkit/regrid/gridspec.py
index 5c4e238..22b1649 100644
--- a/src/earthkit/regrid/gridspec.py
+++ b/src/earthkit/regrid/gridspec.py
@@ -65,6 +65,9 @@ class GridSpec(dict):
 
     @staticmethod
     def from_dict(d):
+        if d is None:
+            raise ValueError("Missing gridspec")
+
         gs = dict(GridSpec.DEFAULTS)
         gs.update(d)
         GridSpec._normalise(gs)
-- 
2.43.0


From 52b5af177b47f27d5909ac11ab2d1944bde711ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 37/56] fix: an empty list of fields regridded with precomputed
 weights gives a usable empty list

---
 src/earthkit/regrid/data/fieldlist.py   | 8 +++-----
 src/earthkit/regrid/data_interpolate.py | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/earthkit/regrid/data/fieldlist.py b/src/earthkit/regrid/data/fieldlist.py
index ad291c2..7c4cb4b 100644
--- a/src/earthkit/regrid/data/fieldlist.py
+++ b/src/earthkit/regrid/data/fieldlist.py
@@ -55,8 +55,6 @@ class FieldListDataHandler(DataHandler):
             return self._regrid_array(values, backend, grid, **kwargs)
 
     def _regrid_array(self, values, backend, grid, **kwargs):
-        import earthkit.data
-
         ds = values
         assert grid is not None
 
@@ -69,7 +67,7 @@ class FieldListDataHandler(DataHandler):
                 "Fieldlists can only be regridded to global regular lat-lon target grids. Target grid is {out_grid}"
             )
 
-        r = earthkit.data.FieldList()
+        r = []
         for i, f in enumerate(ds):
             vv = f.to_numpy(flatten=True)
 
@@ -82,9 +80,9 @@ class FieldListDataHandler(DataHandler):
                 **kwargs,
             )
             md_res = f.metadata().override(gridspec=out_grid)
-            r += ds.from_numpy(v_res, md_res)
+            r.extend(ds.from_numpy(v_res, md_res))
 
-        return r
+        return ds.from_fields(r)
 
     def _regrid_grib(self, values, backend, grid, **kwargs):
         # TODO: remove this when ecCodes supports setting the gridSpec on a GRIB handle
diff --git a/src/earthkit/regrid/data_interpolate.py b/src/earthkit/regrid/data_interpolate.py
index 8c067f3..46a989b 100644
--- a/src/earthkit/regrid/data_interpolate.py
+++ b/src/earthkit/regrid/data_interpolate.py
@@ -90,8 +90,6 @@ class FieldListDataHandler(DataHandler):
     def interpolate(self, values, **kwargs):
         backend = self.backend_from_kwargs(kwargs)
 
-        import earthkit.data
-
         ds = values
         in_grid = kwargs.pop("in_grid")
         out_grid = kwargs.pop("out_grid")
@@ -105,7 +103,7 @@ class FieldListDataHandler(DataHandler):
                 "interpolate(): Fieldlists can only be interpolated to global regular lat-lon target grids"
             )
 
-        r = earthkit.data.FieldList()
+        r = []
         for i, f in enumerate(ds):
             vv = f.to_numpy(flatten=True)
 
@@ -118,9 +116,9 @@ class FieldListDataHandler(DataHandler):
                 **kwargs,
             )
             md_res = f.metadata().override(gridspec=out_grid)
-            r += ds.from_numpy(v_res, md_res)
+            r.extend(ds.from_numpy(v_res, md_res))
 
-        return r
+        return ds.from_fields(r)
 
 
 DATA_HANDLERS = [NumpyDataHandler(), FieldListDataHandler()]
-- 
2.43.0


From a879484a4bd068e98b05c8465afd37bfd9b4c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 38/56] fix: MIR matrices are converted to npz files named by a
 string

---
 src/earthkit/regrid/utils/mir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index 1b70467..b6a6c6a 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -66,7 +66,7 @@ def mir_cached_matrix_to_array(path):
 
 
 def mir_cached_matrix_to_file(path, target):
-    if not target.suffix == ".npz":
+    if not Path(target).suffix == ".npz":
         raise ValueError("target must end with .npz")
 
     z = mir_cached_matrix_to_array(path)
-- 
2.43.0


From 097eadede265d1cc32a24c10532df4cd7ed00f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 39/56] fix: corrupted MIR matrix files are rejected

---
 src/earthkit/regrid/utils/mir.py    | 11 +++++++++--
 src/earthkit/regrid/utils/stream.py |  5 ++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index b6a6c6a..84fc7c0 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -36,7 +36,7 @@ def mir_cached_matrix_to_array(path):
         s = Stream(f)
         rows = s.read_unsigned_long()  # rows
         cols = s.read_unsigned_long()  # cols
-        s.read_unsigned_long()  # non-zeros, ignored
+        nnz = s.read_unsigned_long()  # non-zeros
 
         little_endian = s.read_int() != 0  # little_endian
         index_item_size = s.read_unsigned_long()  # sizeof(index)
@@ -62,7 +62,14 @@ def mir_cached_matrix_to_array(path):
             dtype=dtype_float(little_endian, scalar_item_size),
         )
 
-        return csr_array((data, inner, outer), shape=(rows, cols))
+        z = csr_array((data, inner, outer), shape=(rows, cols))
+
+        # a corrupted file must not give a different or an invalid matrix
+        z.check_format(full_check=True)
+        if z.nnz != nnz or np.any(np.diff(z.indptr) < 0):
+            raise ValueError(f"Invalid matrix file {path}")
+
+        return z
 
 
 def mir_cached_matrix_to_file(path, target):
diff --git a/src/earthkit/regrid/utils/stream.py b/src/earthkit/regrid/utils/stream.py
index 66c85a8..5cdb1c9 100644
--- a/src/earthkit/regrid/utils/stream.py
+++ b/src/earthkit/regrid/utils/stream.py
@@ -64,7 +64,10 @@ class Stream:
         self.stream = stream
 
     def _read(self, n):
-        return self.stream.read(n)
+        data = self.stream.read(n)
+        if len(data) != n:
+            raise EOFError(f"Unexpected end of stream: expected {n} bytes, got {len(data)}")
+        return data
 
     def _write(self, n, nbytes=None):
         assert not nbytes or nbytes == len(n)
-- 
2.43.0


From b86a85dd11d6dec66b533a509bf379462361bfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 40/56] fix: grid definitions of different coordinates are not
 mixed up

---
 src/earthkit/regrid/utils/mir.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index 84fc7c0..dbace4e 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -105,8 +105,9 @@ def _griddef_from_latlon(lat, lon, dir=None):
     import hashlib
 
     version = 1
-    coord = str(version) + str(lat) + str(lon)
-    hash = hashlib.md5(coord.encode()).hexdigest()
+    # the text form of arrays is neither complete nor exact
+    coord = str(version).encode() + b"".join(np.asarray(x, dtype=np.float64).tobytes() for x in (lat, lon))
+    hash = hashlib.md5(coord).hexdigest()
 
     name = Path(hash + ".griddef")
     if dir:
-- 
2.43.0


From 10d5091eb05fa5fed4c5e3cf99a085efa64a5849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:09 +0000
Subject: [PATCH 41/56] fix: MIR matrices can be exported to an array

---
 src/earthkit/regrid/utils/mir.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index dbace4e..f0799b6 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -13,6 +13,7 @@ from pathlib import Path
 from typing import Dict
 from typing import List
 from typing import Optional
+from uuid import uuid4
 
 import numpy as np
 from scipy.sparse import csr_array
@@ -151,12 +152,15 @@ def mir_make_matrix(
     else:
         raise ValueError("mir_make_matrix: output grid or lats/lons must be provided.")
 
-    mat = Path(output)
     if ext == ".mat":
-        job.set("interpolation-matrix", str(mat))
+        mat = Path(output)
     elif ext == ".npz":
+        mat = Path(output)
         mat = mat.with_name(mat.name + ".mat")  # later unlinked
-        job.set("interpolation-matrix", str(mat))
+    else:
+        # MIR links the matrix file to the one in its cache
+        mat = Path(mir.cache()) / f"{uuid4().hex}.mat"  # later unlinked
+    job.set("interpolation-matrix", str(mat))
 
     for key, val in kwargs.items():
         job.set(key, val)
@@ -166,7 +170,7 @@ def mir_make_matrix(
     except Exception as e:
         raise RuntimeError(f"mir_make_matrix: error: {e}.") from e
 
-    if ext and not mat.exists():
+    if not mat.exists():
         raise FileNotFoundError(f"mir_make_matrix: matrix file '{mat}' not found.")
 
     if ext == ".npz":
@@ -174,7 +178,10 @@ def mir_make_matrix(
         mat.unlink()
         assert Path(output).exists()
     elif not ext:
-        return mir_cached_matrix_to_array(mat)
+        try:
+            return mir_cached_matrix_to_array(mat)
+        finally:
+            mat.unlink()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From d74bb12f8c59e52dd1f41ae17176e2960d48a4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 42/56] fix: threads sharing an inventory do not load its index
 at the same time

---
 src/earthkit/regrid/backends/db.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index f12d38e..55eaf11 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -10,6 +10,7 @@
 import json
 import logging
 import os
+import threading
 from abc import ABCMeta
 from abc import abstractmethod
 
@@ -27,6 +28,9 @@ _SYSTEM_URL = "https://sites.ecmwf.int/repository/earthkit/regrid/db/1/"
 _INDEX_FILENAME = "index.json"
 _INDEX_SHA_FILENAME = "index.json.sha256"
 _INDEX_GZ_FILENAME = "index.json.gz"
+# downloading an index file again removes the cached one, which another thread could be reading
+_INDEX_LOCK = threading.RLock()
+
 _METHOD_ALIAS = {"nearest-neighbour": ("nn", "nearest-neighbor")}
 
 _GRIDBOX_DEFAULT = {
@@ -444,9 +448,13 @@ class MatrixDb:
 
     @property
     def index(self):
-        if self._index is None:
-            self._load_index()
-        return self._index
+        index = self._index
+        if index is None:
+            with _INDEX_LOCK:
+                if self._index is None:
+                    self._load_index()
+                index = self._index
+        return index
 
     def _load_index(self):
         path = self._accessor.index_path()
@@ -502,12 +510,15 @@ class MatrixDb:
     def find_entry(self, gridspec_in, gridspec_out, method):
         method = self._method_alias(method)
         entry = self.index.find(gridspec_in, gridspec_out, method)
-        if entry is None and not self._accessor.is_local() and not self._accessor.checked_remote():
-            LOG.info(f"Matrix not found in DB for {gridspec_in=} {gridspec_out=} {method=}")
-            LOG.info("Try to fetch remote index file to check for updates")
-            self._accessor.reload()
-            self._load_index()
-            entry = self.index.find(gridspec_in, gridspec_out, method)
+        if entry is None and not self._accessor.is_local():
+            with _INDEX_LOCK:
+                if not self._accessor.checked_remote():
+                    LOG.info(f"Matrix not found in DB for {gridspec_in=} {gridspec_out=} {method=}")
+                    LOG.info("Try to fetch remote index file to check for updates")
+                    self._accessor.reload()
+                    self._load_index()
+                # (another thread may have loaded the new index)
+                entry = self.index.find(gridspec_in, gridspec_out, method)
 
         return entry
 
-- 
2.43.0


From 7682909cbd15ee6bff48a46bb51b87b33552e90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 43/56] fix: weights that fill the memory cache limit exactly
 are kept

---
 src/earthkit/regrid/utils/memcache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index 23e8927..3646b64 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -123,7 +123,7 @@ class LRUPolicy(MemoryCachePolicy):
         if not self.cache.items:
             return
 
-        while self.cache.curr_mem >= target_size:
+        while self.cache.curr_mem > target_size:
             _, item = self.cache.items.popitem(0)
             self.cache.curr_mem -= item.size
             del item
@@ -150,7 +150,7 @@ class LargestPolicy(MemoryCachePolicy):
         if not self.cache.items:
             return
 
-        while self.cache.curr_mem >= target_size:
+        while self.cache.curr_mem > target_size:
             _, largest = max((v.size, k) for k, v in self.cache.items.items())
             self.cache.curr_mem -= self.cache.items[largest].size
             if self.cache.curr_mem < 0:
-- 
2.43.0


From f24ebb383230119c982691e6dadeb92d5810d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:49 +0000
Subject: [PATCH 44/56] fix: ORCA grids of subtype W are supported as
 documented

---
 src/earthkit/regrid/gridspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/gridspec.py b/src/earthkit/regrid/gridspec.py
index 22b1649..d6358b5 100644
--- a/src/earthkit/regrid/gridspec.py
+++ b/src/earthkit/regrid/gridspec.py
@@ -21,7 +21,7 @@ DEGREE_EPS = 1e-8
 
 HEALPIX_PATTERN = re.compile(r"[Hh]\d+")
 RGG_PATTERN = re.compile(r"[OoNn]\d+")
-ORCA_PATTERN = re.compile(r"^e?ORCA\d+_[FTUV]$")
+ORCA_PATTERN = re.compile(r"^e?ORCA\d+_[FTUVW]$")
 
 
 def _is_number_list(v, n):
-- 
2.43.0


From 86551305e536d5cc0d34f15c1fb8a07c678a7f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:49 +0000
Subject: [PATCH 45/56] fix: numpy numbers can be used in gridspecs

---
 src/earthkit/regrid/gridspec.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/gridspec.py b/src/earthkit/regrid/gridspec.py
index d6358b5..7539dec 100644
--- a/src/earthkit/regrid/gridspec.py
+++ b/src/earthkit/regrid/gridspec.py
@@ -61,7 +61,12 @@ class GridSpec(dict):
     def _normalise(d):
         for k, v in d.items():
             if isinstance(v, tuple):
-                d[k] = list(v)
+                v = d[k] = list(v)
+            # numpy numbers cannot be part of the key of the cached weights
+            if isinstance(v, list):
+                d[k] = [x.item() if isinstance(x, np.generic) else x for x in v]
+            elif isinstance(v, np.generic):
+                d[k] = v.item()
 
     @staticmethod
     def from_dict(d):
-- 
2.43.0


From 851f63675d857f19b575f1a16cf5d7342f762270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:40 +0000
Subject: [PATCH 46/56] fix: HEALPix inventory pages list the available
 matrices

---
 .../regrid/sphinxext/generate_inventory_rst.py     | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/earthkit/regrid/sphinxext/generate_inventory_rst.py b/src/earthkit/regrid/sphinxext/generate_inventory_rst.py
index 8a6e7b9..585a03a 100644
--- a/src/earthkit/regrid/sphinxext/generate_inventory_rst.py
+++ b/src/earthkit/regrid/sphinxext/generate_inventory_rst.py
@@ -35,14 +35,8 @@ def to_str(gs):
     if isinstance(gs, str):
         return gs
 
-    grid = gs["grid"]
-    if isinstance(grid, str) and grid.startswith("H"):
-        if "ordering" in gs:
-            return {"grid": gs["grid"], "ordering": gs["ordering"]}
-        elif "order" in gs:
-            return {"grid": gs["grid"], "ordering": gs["order"]}
-        else:
-            raise ValueError(f"Unknown healpix ordering in gridspec: {gs}")
+    if gs["type"] == "healpix":
+        return {"grid": gs["grid"], "order": gs.order}
     else:
         return {"grid": gs["grid"]}
 
@@ -174,10 +168,10 @@ def execute(*args):
         gs["octahedral"] = False
     elif grid_type == "healpix_ring":
         gs["type"] = "healpix"
-        gs["ordering"] = "ring"
+        gs["order"] = "ring"
     elif grid_type == "healpix_nested":
         gs["type"] = "healpix"
-        gs["ordering"] = "nested"
+        gs["order"] = "nested"
     else:
         gs["type"] = grid_type
 
-- 
2.43.0


From c278a9299dd6d1be11f2a688efc74b5028580e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:51 +0000
Subject: [PATCH 47/56] fix: inventory pages show the area of grids that are
 not global

---
 src/earthkit/regrid/sphinxext/generate_inventory_rst.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/sphinxext/generate_inventory_rst.py b/src/earthkit/regrid/sphinxext/generate_inventory_rst.py
index 585a03a..d59d2e6 100644
--- a/src/earthkit/regrid/sphinxext/generate_inventory_rst.py
+++ b/src/earthkit/regrid/sphinxext/generate_inventory_rst.py
@@ -37,8 +37,12 @@ def to_str(gs):
 
     if gs["type"] == "healpix":
         return {"grid": gs["grid"], "order": gs.order}
-    else:
-        return {"grid": gs["grid"]}
+
+    res = {"grid": gs["grid"]}
+    # the area is needed when the grid on its own means another grid
+    if not gs == GridSpec.from_dict(res):
+        res["area"] = gs["area"]
+    return res
 
 
 def make_gs_block(source, target):
-- 
2.43.0


From 8e78fa380ba80e4f94d1728b5406e6d461af14ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 48/56] fix: the inventory tools import the inventory module
 from its present place

---
 tools/subset/subset_remote_db.py | 2 +-
 tools/utils/matrix.py            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/subset/subset_remote_db.py b/tools/subset/subset_remote_db.py
index 9141482..0e5893f 100644
--- a/tools/subset/subset_remote_db.py
+++ b/tools/subset/subset_remote_db.py
@@ -15,7 +15,7 @@ import sys
 
 import yaml
 
-from earthkit.regrid.db import SYS_DB as DB
+from earthkit.regrid.backends.db import SYS_DB as DB
 
 LOG = logging.getLogger(__name__)
 
diff --git a/tools/utils/matrix.py b/tools/utils/matrix.py
index 9a11bff..00371b5 100644
--- a/tools/utils/matrix.py
+++ b/tools/utils/matrix.py
@@ -22,8 +22,8 @@ MIR_INTERPOLATE_OPTION = "interpolation"
 def download_index_file(target):
     import requests
 
-    from earthkit.regrid.db import _INDEX_GZ_FILENAME
-    from earthkit.regrid.db import _SYSTEM_URL
+    from earthkit.regrid.backends.db import _INDEX_GZ_FILENAME
+    from earthkit.regrid.backends.db import _SYSTEM_URL
 
     path = os.path.join(_SYSTEM_URL, _INDEX_GZ_FILENAME)
     requests.get(path)
-- 
2.43.0


From f8cc9d4850edc1f8461c4adc5c575b6f4daaa9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 49/56] fix: Xarray data can be regridded to a grid with a
 single row or column

---
 src/earthkit/regrid/data/xarray.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 9de2000..f4fa9eb 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -64,8 +64,7 @@ class GridWrapper:
         if rows > 0:
             for i in range(rows):
                 vals = lats[i, :]
-                delta = np.diff(vals)
-                if np.allclose(delta, delta[0]):
+                if np.allclose(vals, vals[0]):
                     r[i] = vals[0]
                 else:
                     return None
@@ -82,8 +81,7 @@ class GridWrapper:
         if cols > 0:
             for i in range(cols):
                 vals = lons[:, i]
-                delta = np.diff(vals)
-                if np.allclose(delta, delta[0]):
+                if np.allclose(vals, vals[0]):
                     r[i] = vals[0]
                 else:
                     return None
-- 
2.43.0


From 98e1bb0e973269e8a37ad1d32d4179fb914ab301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:23 +0000
Subject: [PATCH 50/56] fix: the disk cache can be used in forked processes

The thread managing the cache does not exist in a process forked from one
that used the cache (e.g. by multiprocessing), where all the requests were
waiting for it for ever.
---
 src/earthkit/regrid/utils/caching.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 46d751a..82bd4e1 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -789,7 +789,21 @@ class Cache:
         self._policy = None
         self._policy_lock = threading.Lock()
         self._manager_lock = threading.Lock()
+        self._parent_manager = None
         Cache._created = True
+        if hasattr(os, "register_at_fork"):
+            os.register_at_fork(after_in_child=self._after_fork)
+
+    def _after_fork(self):
+        # the thread of the manager does not exist in a forked process
+        self._policy_lock = threading.Lock()
+        self._manager_lock = threading.Lock()
+        if self._manager is not None:
+            # keep it, the database connection of the parent process must not be closed here
+            self._parent_manager = self._manager
+            self._manager = CacheManager()
+            self._manager._policy = self._parent_manager._policy
+            self._manager.start()
 
     @property
     def policy(self):
-- 
2.43.0


From 9c57d080cfbdf4ba65236033808ad7d8caff7be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:04 +0000
Subject: [PATCH 51/56] fix: forked processes do not remove the temporary
 directories of their parent

---
 src/earthkit/regrid/utils/temporary.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/earthkit/regrid/utils/temporary.py b/src/earthkit/regrid/utils/temporary.py
index 70db7c2..fa1ef50 100644
--- a/src/earthkit/regrid/utils/temporary.py
+++ b/src/earthkit/regrid/utils/temporary.py
@@ -9,6 +9,7 @@
 
 import os
 import tempfile
+import weakref
 
 
 class TmpFile:
@@ -57,6 +58,9 @@ def temp_file(extension=".tmp") -> TmpFile:
     return TmpFile(path)
 
 
+_DIRECTORIES = weakref.WeakSet()
+
+
 class TmpDirectory(tempfile.TemporaryDirectory):
     def __init__(self, *args, **kwargs):
         d = kwargs.get("dir", None)
@@ -65,6 +69,7 @@ class TmpDirectory(tempfile.TemporaryDirectory):
         if d is not None and not os.path.exists(d):
             os.makedirs(d)
         super().__init__(*args, **kwargs)
+        _DIRECTORIES.add(self)
 
     @property
     def path(self):
@@ -73,3 +78,13 @@ class TmpDirectory(tempfile.TemporaryDirectory):
 
 def temp_directory(dir=None):
     return TmpDirectory(dir=dir)
+
+
+def _after_fork():
+    # a directory is only removed by the process that created it
+    for d in list(_DIRECTORIES):
+        d._finalizer.detach()
+
+
+if hasattr(os, "register_at_fork"):
+    os.register_at_fork(after_in_child=_after_fork)
-- 
2.43.0


From 49d127e7fef45ba025764df68a922febc3de3ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:53 +0000
Subject: [PATCH 52/56] fix: grid definition files are never seen incomplete

An export of weights that was interrupted while writing the coordinates left
a partial file, which all later exports of the same coordinates used. Exports
running at the same time could read a partial file as well.
---
 src/earthkit/regrid/utils/mir.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index f0799b6..d97f43e 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -115,7 +115,13 @@ def _griddef_from_latlon(lat, lon, dir=None):
         name = dir / name
 
     if not name.exists():
-        mir_write_latlon_to_griddef(name, lat, lon)
+        # the file must only be seen complete, it is used by all later requests
+        tmp = name.with_name(f"{hash}.{uuid4().hex}.tmp")
+        try:
+            mir_write_latlon_to_griddef(tmp, lat, lon)
+            tmp.replace(name)
+        finally:
+            tmp.unlink(missing_ok=True)
 
     return str(name)
 
-- 
2.43.0


From 5fed3a58a2af22b1e3c85980b446ebf99296506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:16 +0000
Subject: [PATCH 53/56] fix: cache files created again by force are replaced,
 not removed first

Another thread or process may be using the file: several processes checking
the index of a remote inventory at the same time failed with FileNotFoundError.
---
 src/earthkit/regrid/utils/caching.py | 45 +++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 82bd4e1..69bb6ed 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -269,6 +269,22 @@ class CacheManager(threading.Thread):
             )
             return db.execute("SELECT changes()").fetchone()[0]
 
+    def _renew_entry(self, path):
+        """Make the entry the one of a file being created"""
+        now = datetime.datetime.now()
+        with self.connection as db:
+            db.execute(
+                """
+                UPDATE cache
+                SET size          = NULL,
+                    owner_data    = NULL,
+                    creation_date = ?,
+                    last_access   = ?,
+                    accesses      = 1
+                WHERE path=?""",
+                (now, now, path),
+            )
+
     def _update_cache(self, clean=False):
         """Update cache size and size of each file in the database ."""
         with self.connection as db:
@@ -885,6 +901,9 @@ class Cache:
     def _update_entry(self, *args, **kwargs):
         return self._call_manager(False, "update_entry", *args, **kwargs)
 
+    def _renew_entry(self, *args, **kwargs):
+        return self._call_manager(False, "renew_entry", *args, **kwargs)
+
     def _decache_file(self, *args, **kwargs):
         return self._call_manager(False, "decache_file", *args, **kwargs)
 
@@ -1060,21 +1079,26 @@ def cache_file(
                 force = force(args, path, owner_data)
 
             if force:
-                LOG.info(f"decache file by force: {path=}")
-                CACHE._decache_file(path)
-                record = CACHE._register_cache_file(path, owner, args)
+                LOG.info(f"create file again by force: {path=}")
+                CACHE._renew_entry(path)
+        else:
+            force = False
 
-        if not os.path.exists(path):
+        # the existing file may be in use, it is only replaced when the new one is complete
+        if force or not os.path.exists(path):
             from filelock import FileLock
 
             lock = path + ".lock"
             with FileLock(lock):
-                if not os.path.exists(path):  # Check again, another thread/process may have created the file
+                # Check again, another thread/process may have created the file
+                if force or not os.path.exists(path):
                     # a previous attempt may have been interrupted
                     _remove(path + ".tmp")
                     try:
                         owner_data = create(path + ".tmp", args)
-                        os.rename(path + ".tmp", path)
+                        if os.path.isdir(path) or os.path.isdir(path + ".tmp"):
+                            _remove(path)
+                        os.replace(path + ".tmp", path)
                     except BaseException:
                         CACHE._decache_file(path)
                         raise
@@ -1085,10 +1109,11 @@ def cache_file(
                         CACHE._update_entry(path, owner_data)
                     CACHE.check_size()
 
-            try:
-                os.unlink(lock)
-            except OSError:
-                pass
+                # not after the lock is released, another thread/process may be holding it by then
+                try:
+                    os.unlink(lock)
+                except OSError:
+                    pass
 
     else:
         # path can be a file or a directory. We have to make the name unique.
-- 
2.43.0


From f1a2b5d3a4124377b0c0bcfb76d5716e793f2ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:52 +0000
Subject: [PATCH 54/56] fix: files of a creation that takes long are not taken
 for orphans

---
 src/earthkit/regrid/utils/caching.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 69bb6ed..0db1115 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -327,6 +327,10 @@ class CacheManager(threading.Thread):
                 if count > 0:
                     continue
 
+                # files of a creation in progress, however long it takes
+                if name.endswith(".lock") or (name.endswith(".tmp") and self._being_created(full[: -len(".tmp")])):
+                    continue
+
                 parent = None
                 start = full.split(".")[0] + "%"
                 for n in db.execute(
@@ -1093,7 +1097,8 @@ def cache_file(
                 # Check again, another thread/process may have created the file
                 if force or not os.path.exists(path):
                     # a previous attempt may have been interrupted
-                    _remove(path + ".tmp")
+                    if os.path.lexists(path + ".tmp"):
+                        CACHE._decache_file(path + ".tmp")
                     try:
                         owner_data = create(path + ".tmp", args)
                         if os.path.isdir(path) or os.path.isdir(path + ".tmp"):
-- 
2.43.0


From d5d5831ef9168ba334f4af7ba418771ace4f4c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:50 +0000
Subject: [PATCH 55/56] fix: a file requested again after it was lost was
 evicted as soon as it was created

---
 src/earthkit/regrid/utils/caching.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 0db1115..7491474 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -279,8 +279,7 @@ class CacheManager(threading.Thread):
                 SET size          = NULL,
                     owner_data    = NULL,
                     creation_date = ?,
-                    last_access   = ?,
-                    accesses      = 1
+                    last_access   = ?
                 WHERE path=?""",
                 (now, now, path),
             )
@@ -1084,7 +1083,6 @@ def cache_file(
 
             if force:
                 LOG.info(f"create file again by force: {path=}")
-                CACHE._renew_entry(path)
         else:
             force = False
 
@@ -1096,6 +1094,8 @@ def cache_file(
             with FileLock(lock):
                 # Check again, another thread/process may have created the file
                 if force or not os.path.exists(path):
+                    # the entry may be the one of a file lost, or of a previous attempt
+                    CACHE._renew_entry(path)
                     # a previous attempt may have been interrupted
                     if os.path.lexists(path + ".tmp"):
                         CACHE._decache_file(path + ".tmp")
-- 
2.43.0


From 652699026d305229ea46e2c80ee5ba3eff236d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:25 +0000
Subject: [PATCH 56/56] fix: a process killed while removing a directory left a
 part of it as the cached one

---
 src/earthkit/regrid/utils/caching.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 7491474..75aa9ed 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -364,10 +364,7 @@ class CacheManager(threading.Thread):
         self._ensure_in_cache(path)
 
         try:
-            if os.path.isdir(path) and not os.path.islink(path):
-                shutil.rmtree(path)
-            else:
-                os.unlink(path)
+            _remove(path)
         except Exception as e:
             print(e)
             LOG.exception("Deleting %s", path)
@@ -999,7 +996,12 @@ CACHE = Cache()
 
 def _remove(path):
     if os.path.isdir(path) and not os.path.islink(path):
-        shutil.rmtree(path)
+        # at once, for nobody to find a part of it
+        removed = f"{path}.{os.getpid()}.removed"
+        if os.path.lexists(removed):
+            shutil.rmtree(removed)
+        os.rename(path, removed)
+        shutil.rmtree(removed)
     elif os.path.lexists(path):
         os.unlink(path)
 
-- 
2.43.0

