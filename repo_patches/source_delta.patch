From 423a25522e2fc1fb90351794613a2fc8196625ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:31 +0000
Subject: [PATCH 01/21] fix: cache: never give different arguments or functions
 the same key

---
 hermipy/cache.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index 824bce6..f7f7a41 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -36,30 +36,42 @@ def gen_hash(extend=None):
     if extend is None:
         extend = default_extend
 
+    def digest(kind, content):
+        return hashlib.md5((kind + ':' + content).encode('utf-8')).hexdigest()
+
     def the_hash(argument):
         if isinstance(argument, str):
-            encoded_str = argument.encode('utf-8')
-            return hashlib.md5(encoded_str).hexdigest()
+            return digest('str', argument)
         if isinstance(argument, sparse.csr_matrix):
             a = argument
             new_args = [a.data, a.indices, a.indptr, a.shape]
-            return the_hash(new_args)
+            return digest('csr', the_hash(new_args))
         if isinstance(argument, np.ndarray):
-            return hashlib.md5(argument).hexdigest()
+            content = hashlib.md5(np.ascontiguousarray(argument)).hexdigest()
+            return digest('array', argument.dtype.str + str(argument.shape)
+                          + content)
         if isinstance(argument, sym.Basic):
-            return the_hash(str(argument))
+            return digest('sym', str(argument))
         if isinstance(argument, (list, tuple, frozenset)):
             hashes = [the_hash(e) for e in argument]
-            return the_hash('list' + '-'.join(hashes))
+            if isinstance(argument, frozenset):
+                hashes.sort()
+            kind = next(t.__name__ for t in (list, tuple, frozenset)
+                        if isinstance(argument, t))
+            return digest(kind, '-'.join(hashes))
         if isinstance(argument, dict):
             hashes_k = ['k'] + [the_hash(kw) for kw in argument]
             hashes_v = ['v'] + [the_hash(argument[kw]) for kw in argument]
-            return the_hash(hashes_k + hashes_v)
+            return digest('dict', '-'.join(hashes_k + hashes_v))
         if isinstance(argument, (int, float)):
-            return the_hash(str(hash(argument)))
+            # Equal numbers of different types have the same hash
+            if isinstance(argument, float) and \
+                    (not argument.is_integer() or str(argument) == '-0.0'):
+                return digest('number', argument.hex())
+            return digest('number', str(int(argument)))
         if argument is None:
-            return the_hash("")
-        return the_hash(extend(argument))
+            return digest('none', '')
+        return digest('extend', the_hash(extend(argument)))
 
     return the_hash
 
@@ -111,10 +123,12 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                 use_cache = kwargs['cache']
                 del kwargs['cache']
             hashes, prefix = [], function.__name__
+            hashes.append(hash_fun([function.__module__,
+                                    function.__qualname__]))
             for arg in args:
                 hashes.append(hash_fun(arg))
             for kw in kwargs:
-                hashes.append(hash_fun(kw))
+                hashes.append('=' + hash_fun(kw))
                 hashes.append(hash_fun(kwargs[kw]))
             hash_args = hash_fun(('-'.join(hashes)))
             if settings['debug']:
-- 
2.43.0


From 25e81a402190b59ae9de1a293f092a3d3d51c593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:51 +0000
Subject: [PATCH 02/21] fix: cache: create the directory only when storing,
 whoever else creates it

---
 hermipy/cache.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index f7f7a41..2ba9857 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -135,9 +135,6 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                 print("Hash of arguments: " + prefix + '-' + '-'.join(hashes))
 
             cachedir = settings['cachedir']
-            if not os.path.exists(cachedir):
-                os.makedirs(cachedir)
-
             savefile = cachedir + '/' + prefix + '-' + str(hash_args)
 
             cached_exists = False
@@ -174,6 +171,7 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
 
             save = sparse.save_npz if is_sparse_result else np.save
             if settings['cache']:
+                os.makedirs(cachedir, exist_ok=True)
                 save(savefile, result)
             return result
 
-- 
2.43.0


From ebb33fb96a0b3996af235d526c3eeff1a60990bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:20 +0000
Subject: [PATCH 03/21] fix: cache: store results atomically and durably,
 ignore unreadable files

---
 hermipy/cache.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index 2ba9857..f08aaa1 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -22,7 +22,9 @@ import sympy as sym
 import numpy as np
 import scipy.sparse as sparse
 import os
+import uuid
 
+from contextlib import suppress
 from functools import wraps
 from hermipy.settings import settings
 
@@ -114,6 +116,20 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
             result = float(result)
         return result
 
+    def atomic_save(save, filename, result):
+        # At any time, there is a complete file or no file
+        tmpfile = filename + '.' + uuid.uuid4().hex
+        try:
+            with open(tmpfile, 'xb') as stream:
+                save(stream, result)
+                stream.flush()
+                os.fsync(stream.fileno())
+            os.replace(tmpfile, filename)
+        except BaseException:
+            with suppress(OSError):
+                os.remove(tmpfile)
+            raise
+
     def cache_aux(function):
 
         @wraps(function)
@@ -154,7 +170,8 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                                 result_cache.is_integer():
                             result_cache = int(result_cache)
                         return result_cache
-                except ValueError:
+                except Exception:
+                    # An unreadable file is the same as no file
                     cached_exists = False
 
             result = function(*args, **kwargs)
@@ -172,7 +189,9 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
             save = sparse.save_npz if is_sparse_result else np.save
             if settings['cache']:
                 os.makedirs(cachedir, exist_ok=True)
-                save(savefile, result)
+                extension = '.npz' if is_sparse_result else '.npy'
+                savefile = os.path.splitext(savefile)[0] + extension
+                atomic_save(save, savefile, result)
             return result
 
         return wrapper
-- 
2.43.0


From 5c8de8787554baca0cee547b0b79b377a1ae51a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:39 +0000
Subject: [PATCH 04/21] fix: cache: store only results that load as they were,
 and load numbers exactly

---
 hermipy/cache.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index f08aaa1..7b5e43e 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -113,9 +113,18 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
     def extended_load(filename):
         result = np.load(filename)
         if result.shape == ():
-            result = float(result)
+            result = result.item()
         return result
 
+    def storable(result):
+        # Only what is recovered as it was when loading
+        if type(result) in (np.ndarray, sparse.csr_matrix) or \
+                isinstance(result, (int, float, complex, np.generic)):
+            dtype = result.dtype if hasattr(result, 'dtype') \
+                else np.asarray(result).dtype
+            return dtype.kind in 'biufc'
+        return False
+
     def atomic_save(save, filename, result):
         # At any time, there is a complete file or no file
         tmpfile = filename + '.' + uuid.uuid4().hex
@@ -187,7 +196,7 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                 return result
 
             save = sparse.save_npz if is_sparse_result else np.save
-            if settings['cache']:
+            if settings['cache'] and storable(result):
                 os.makedirs(cachedir, exist_ok=True)
                 extension = '.npz' if is_sparse_result else '.npy'
                 savefile = os.path.splitext(savefile)[0] + extension
-- 
2.43.0


From 9680bbbef74c31c278140b93f7e8b4f1b396e848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:15 +0000
Subject: [PATCH 05/21] fix: cache: compare any result with the stored one,
 report differences by an exception

---
 hermipy/cache.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index 7b5e43e..bd84249 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -81,8 +81,6 @@ def gen_hash(extend=None):
 def gen_error(extend=None):
 
     def default_extend(u, v):
-        import pdb
-        pdb.set_trace()
         raise ValueError("Invalid types: "
                          + str(type(u)) + ", " + str(type(v)))
 
@@ -90,14 +88,19 @@ def gen_error(extend=None):
         extend = default_extend
 
     def the_error(u, v):
-        if isinstance(u, (float, int)):
-            return abs(u - v)
+        if isinstance(u, (float, int, complex, np.generic)):
+            return the_error(np.array([u]), np.array([v]))
         elif isinstance(u, np.ndarray):
-            return la.norm(u - v, 2)
+            u, v = 1*np.asarray(u), 1*np.asarray(v)
+            if u.shape != v.shape:
+                return np.inf
+            # Equal infinities agree, and so do NaNs
+            differ = (u != v) & ((u == u) | (v == v))
+            return la.norm(u[differ] - v[differ], 2)
         elif isinstance(u, sparse.csr_matrix):
             if not isinstance(v, sparse.csr_matrix):
                 raise ValueError("Type mismatch")
-            return la.norm(u.data - v.data, 2)
+            return the_error(u.data, v.data)
         elif isinstance(u, tuple):
             return sum([the_error(ui, vi) for ui, vi in zip(u, v)])
         return extend(u, v)
@@ -190,8 +193,6 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                 error = error_fun(result, result_cache)
                 ok = is_sparse_cache is is_sparse_result and error < 1e-10
                 if not quiet and not ok:
-                    import pdb
-                    pdb.set_trace()
                     raise ValueError("Result does not correspond to cache")
                 return result
 
-- 
2.43.0


From 7da91fd4556ac96e4c666785bfe663148d873056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:08 +0000
Subject: [PATCH 06/21] fix: stats: restore the nesting level after an
 exception, measure time with a monotonic clock

---
 hermipy/stats.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hermipy/stats.py b/hermipy/stats.py
index ebdf4ec..c4d5fcd 100644
--- a/hermipy/stats.py
+++ b/hermipy/stats.py
@@ -66,10 +66,12 @@ def log_stats(force=False):
                 print(indent_str + "Entering " + key)
 
             indent += 1
-            time_start = time.time()
-            result = function(*args, **kwargs)
-            time_end = time.time()
-            indent -= 1
+            time_start = time.perf_counter()
+            try:
+                result = function(*args, **kwargs)
+            finally:
+                indent -= 1
+            time_end = time.perf_counter()
 
             if key not in stats:
                 stats[key] = {'Calls': 0, 'Time': 0}
-- 
2.43.0


From b6cfe265bdd6d5c6e6df8f62ac24906976e62808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:08 +0000
Subject: [PATCH 07/21] fix: series: do not round the caller's array in place

---
 hermipy/series.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermipy/series.py b/hermipy/series.py
index 60f270d..0d45e2d 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -97,6 +97,7 @@ class Series:
 does not match number of multi-indices!")
 
         if significant != 0:
+            self.coeffs = self.coeffs.copy()
             for i, c in enumerate(self.coeffs):
                 self.coeffs[i] = round(c, significant)
 
-- 
2.43.0


From e7131ba62c0018df067dec84d766bac937450057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:24 +0000
Subject: [PATCH 08/21] fix: quad: do not drop the imaginary part of the series
 being plotted

---
 hermipy/quad.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 923ae72..fcd7952 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -493,7 +493,9 @@ class Quad:
 
             # Fix me maybe?
             if series.coeffs.dtype == np.dtype('complex128'):
-                series.coeffs = np.real(series.coeffs).copy(order='C')
+                series = hm.Series(np.real(series.coeffs).copy(order='C'),
+                                   series.position, factor=series.factor,
+                                   index_set=series.index_set)
 
             if factor is None:
                 solution = self.eval(series)
-- 
2.43.0


From 0e15655cbd77bf1447c38a9b340cac8e52323097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:07 +0000
Subject: [PATCH 09/21] fix: discretize: build integrands under private names,
 report failures to build or load them

---
 cpp/src/hermite/discretize.cpp | 47 ++++++++++++++++++++++++++++------
 cpp/src/hermite/discretize.hpp |  2 +-
 2 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/cpp/src/hermite/discretize.cpp b/cpp/src/hermite/discretize.cpp
index bcf2fd8..0f862fa 100644
--- a/cpp/src/hermite/discretize.cpp
+++ b/cpp/src/hermite/discretize.cpp
@@ -19,8 +19,13 @@
  */
 
 #include <cmath>
+#include <cstdio>
 #include <dlfcn.h>
+#include <fcntl.h>
 #include <fstream>
+#include <memory>
+#include <stdexcept>
+#include <unistd.h>
 
 #include "hermite/types.hpp"
 #include "hermite/iterators.hpp"
@@ -85,14 +90,21 @@ vec discretize(
     return result;
 }
 
-void intern_function(string const & function_body)
+void intern_function(string const & function_body, bool rebuild)
 {
     string name = to_string(hash<string>()(function_body));
-    string cpp_file = "/tmp/" + name + ".cpp";
+    string cpp_file = "/tmp/" + name + ".XXXXXX.cpp";
     string so_file = "/tmp/" + name + ".so";
     ifstream test_exists(so_file.c_str());
 
-    if(! test_exists.good()) {
+    if(rebuild || ! test_exists.good()) {
+         // Build under a private name, so that so_file is complete if it exists
+         int descriptor = mkstemps(&cpp_file[0], 4);
+         if (descriptor == -1)
+             throw runtime_error("Error creating file in /tmp");
+         close(descriptor);
+         string tmp_file = cpp_file.substr(0, cpp_file.size() - 4) + ".so";
+
          ofstream write_function;
          write_function.open(cpp_file);
          write_function << "#define M_PI 3.14159265358979323846\n";
@@ -102,10 +114,20 @@ void intern_function(string const & function_body)
          write_function.close();
 
         // Compile file
-        string command = "c++ " + cpp_file + " -o " + so_file + " -O3 -Ofast -shared -fPIC";
-        int return_value = system(command.c_str());
-        if (return_value != 0) 
-            std::cout << "Error compiling file in /tmp" << std::endl;
+        string command = "c++ " + cpp_file + " -o " + tmp_file + " -O3 -Ofast -shared -fPIC";
+        int return_value = write_function.good() ? system(command.c_str()) : -1;
+        unlink(cpp_file.c_str());
+        if (return_value == 0)
+        {
+            descriptor = open(tmp_file.c_str(), O_RDONLY);
+            return_value = fsync(descriptor);
+            close(descriptor);
+        }
+        if (return_value != 0 || rename(tmp_file.c_str(), so_file.c_str()) != 0)
+        {
+            unlink(tmp_file.c_str());
+            throw runtime_error("Error compiling file in /tmp");
+        }
     }
 }
 
@@ -119,9 +141,18 @@ vec discretize_from_string(
     string name = to_string(hash<string>()(function_body));
     string so_file = "/tmp/" + name + ".so";
     void *function_so = dlopen(so_file.c_str(), RTLD_NOW);
+    if (function_so == nullptr)
+    {
+        intern_function(function_body, true);
+        function_so = dlopen(so_file.c_str(), RTLD_NOW);
+    }
+    if (function_so == nullptr)
+        throw runtime_error("Error loading file in /tmp");
+    unique_ptr<void, int (*)(void *)> closer(function_so, dlclose);
     s_func func = (s_func) dlsym(function_so, "toIntegrate");
+    if (func == nullptr)
+        throw runtime_error("Error loading function from file in /tmp");
     vec result = discretize(func, nodes, translation, dilation);
-    dlclose(function_so);
     return result;
 }
 
diff --git a/cpp/src/hermite/discretize.hpp b/cpp/src/hermite/discretize.hpp
index 5591134..10646d9 100644
--- a/cpp/src/hermite/discretize.hpp
+++ b/cpp/src/hermite/discretize.hpp
@@ -31,7 +31,7 @@ vec discretize(
         vec const & translation,
         mat const & dilation);
 
-void intern_function(std::string const & function_body);
+void intern_function(std::string const & function_body, bool rebuild = false);
 vec discretize_from_string(
         std::string function_body,
         mat const & nodes,
-- 
2.43.0


From 9d58f60ffcebdc3881727421f8ee51d61572e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:07 +0000
Subject: [PATCH 10/21] fix: discretize: handle allocation failures, release
 memory when an exception is thrown

---
 cpp/src/hermite/discretize.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/cpp/src/hermite/discretize.cpp b/cpp/src/hermite/discretize.cpp
index 0f862fa..a789dc8 100644
--- a/cpp/src/hermite/discretize.cpp
+++ b/cpp/src/hermite/discretize.cpp
@@ -61,8 +61,8 @@ vec discretize(
     u_int dim = nodes.size();
 
     u_int i,j;
-    double* node = (double*) malloc(sizeof(double)*dim);
-    double* mapped_node = (double*) malloc(sizeof(double)*dim);
+    vec node(dim);
+    vec mapped_node(dim);
 
     u_int n_points_tot = 1;
     ivec n_points(dim);
@@ -80,13 +80,10 @@ vec discretize(
         {
             node[j] = nodes[j][p[j]];
         }
-        map_point(translation, dilation, node, mapped_node);
-        result[i] = func(mapped_node);
+        map_point(translation, dilation, node.data(), mapped_node.data());
+        result[i] = func(mapped_node.data());
     }
 
-    free(node);
-    free(mapped_node);
-
     return result;
 }
 
-- 
2.43.0


From f1e7ee0e31f503a3b6d6ab3c108fb34ffc1b26e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:07 +0000
Subject: [PATCH 11/21] fix: hermite: do not write past the end of the values
 for degree 0

---
 cpp/src/hermite/hermite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/src/hermite/hermite.cpp b/cpp/src/hermite/hermite.cpp
index ed3836e..46016f6 100644
--- a/cpp/src/hermite/hermite.cpp
+++ b/cpp/src/hermite/hermite.cpp
@@ -32,7 +32,8 @@ void hermite_eval(double x,
 {
 
     values[0] = 1;
-    values[1] = x;
+    if (degree > 0)
+        values[1] = x;
 
     for (unsigned i = 1; i < degree; i++)
     {
-- 
2.43.0


From 15ef6ee37bc047d2018afe2dee5a91e47feea1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:07 +0000
Subject: [PATCH 12/21] fix: varfd: read the matrix where it is, whatever its
 memory layout and element type

---
 cpp/src/hermite/python/converters.cpp | 3 ++-
 hermipy/core.py                       | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/src/hermite/python/converters.cpp b/cpp/src/hermite/python/converters.cpp
index 5d7b03b..dfabb89 100644
--- a/cpp/src/hermite/python/converters.cpp
+++ b/cpp/src/hermite/python/converters.cpp
@@ -121,6 +121,7 @@ boost_mat to_boost_mat(const np::ndarray & input)
     u_int n_rows = (u_int) shape[0];
     u_int n_cols = (u_int) shape[1];
 
+    u_int stride_rows = (u_int) strides[0] / sizeof(double);
     u_int stride_cols = (u_int) strides[1] / sizeof(double);
 
     if (stride_cols != 1)
@@ -132,7 +133,7 @@ boost_mat to_boost_mat(const np::ndarray & input)
     boost_mat result (n_rows, n_cols);
     for (u_int i = 0; i < n_rows; ++i)
         for (u_int j = 0; j < n_cols; j++)
-            result(i, j) = data[i*n_rows + j];
+            result(i, j) = data[i*stride_rows + j];
 
     return result;
 }
diff --git a/hermipy/core.py b/hermipy/core.py
index cf52953..b5ef7d9 100644
--- a/hermipy/core.py
+++ b/hermipy/core.py
@@ -187,6 +187,7 @@ def varf(degree, fgrid, nodes, weights, sparse=False,
 def varfd(dim, degree, direction, var,
           do_fourier=0, index_set="triangle"):
     if isinstance(var, np.ndarray):
+        var = np.ascontiguousarray(var, dtype=float)
         var = hm_cpp.to_boost_mat(var)
     elif isinstance(var, ss.csr_matrix):
         var = convert_to_cpp_sparse(var)
-- 
2.43.0


From 248fef7a3c245cf31a301697890c418ba805458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:29 +0000
Subject: [PATCH 13/21] fix: raise an exception instead of terminating the
 process on invalid requests

---
 cpp/src/hermite/inner.cpp     |  3 ++-
 cpp/src/hermite/iterators.cpp |  7 +++----
 cpp/src/hermite/lib.cpp       | 10 ++++------
 cpp/src/hermite/project.cpp   |  5 +++--
 cpp/src/hermite/tensorize.cpp | 18 +++++++-----------
 cpp/src/hermite/transform.cpp |  6 +++---
 cpp/src/hermite/varf.cpp      | 12 +++++-------
 7 files changed, 27 insertions(+), 34 deletions(-)

diff --git a/cpp/src/hermite/inner.cpp b/cpp/src/hermite/inner.cpp
index 6c48c2b..e008309 100644
--- a/cpp/src/hermite/inner.cpp
+++ b/cpp/src/hermite/inner.cpp
@@ -19,6 +19,7 @@
  */
 
 #include <assert.h>
+#include <stdexcept>
 
 #ifdef DEBUG
 #include <iostream>
@@ -228,7 +229,7 @@ vec inner(const vec & s1,
     else if (index_set == "cross_nc") function = inner<Cross_iterator_nc>;
     else if (index_set == "cube") function = inner<Cube_iterator>;
     else if (index_set == "rectangle") function = inner<Rectangle_iterator>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(s1, s2, dirs1, dirs2);
 }
 
diff --git a/cpp/src/hermite/iterators.cpp b/cpp/src/hermite/iterators.cpp
index 0e9069b..180b6d3 100644
--- a/cpp/src/hermite/iterators.cpp
+++ b/cpp/src/hermite/iterators.cpp
@@ -19,6 +19,7 @@
  */
 
 #include <assert.h>
+#include <stdexcept>
 #include <unordered_map>
 #include "hermite/io.hpp"
 #include "hermite/lib.hpp"
@@ -314,8 +315,7 @@ u_int Triangle_iterator::s_find_dim(u_int degree, u_int n_polys)
 
     if (n_dim != n_polys)
     {
-        std::cerr << "Dimension not found, exiting..." << std::endl;
-        exit(1);
+        throw std::invalid_argument("Dimension not found");
     }
 
     return dim;
@@ -439,8 +439,7 @@ bool Cross_iterator_nc::s_increment(ivec & multi_index, u_int degree)
         bool triangle_full = Triangle_iterator::s_increment(multi_index, degree + dim - 1);
         if (triangle_full)
         {
-            std::cout << "[Cross_iterator_nc::s_increment]: Error, triangle is full!" << std::endl;
-            exit(1);
+            throw std::invalid_argument("[Cross_iterator_nc::s_increment]: Error, triangle is full!");
         }
         product = 1;
         for (auto i : multi_index)
diff --git a/cpp/src/hermite/lib.cpp b/cpp/src/hermite/lib.cpp
index 20ce791..4b72f4d 100644
--- a/cpp/src/hermite/lib.cpp
+++ b/cpp/src/hermite/lib.cpp
@@ -18,6 +18,8 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <stdexcept>
+
 #include "hermite/iterators.hpp"
 #include "hermite/lib.hpp"
 #include "hermite/types.hpp"
@@ -92,10 +94,7 @@ u_int pos_bissect(u_int image, std::function<u_int(u_int)> f, u_int max)
 
     if (img_1 > 0 || img_2 < 0)
     {
-        std::cout << "Can't find x, Invalid arguments!" << std::endl;
-        std::cout << "-> x1: " << x1 << ", img_1: " << f(x1) << std::endl;
-        std::cout << "-> x2: " << x2 << ", img_2: " << f(x2) << std::endl;
-        exit(0);
+        throw std::invalid_argument("Can't find x, Invalid arguments!");
     }
 
     if (img_1 == 0)
@@ -113,8 +112,7 @@ u_int pos_bissect(u_int image, std::function<u_int(u_int)> f, u_int max)
         {
             if (new_x == x1)
             {
-                std::cout << "[lib.cpp:pos_bissect] Can't find x, infinite loop!" << std::endl;
-                exit(1);
+                throw std::invalid_argument("[lib.cpp:pos_bissect] Can't find x, infinite loop!");
             }
 
             x1 = new_x;
diff --git a/cpp/src/hermite/project.cpp b/cpp/src/hermite/project.cpp
index c382cfa..dd04269 100644
--- a/cpp/src/hermite/project.cpp
+++ b/cpp/src/hermite/project.cpp
@@ -19,6 +19,7 @@
  */
 
 #include <iostream>
+#include <stdexcept>
 #include "hermite/io.hpp"
 #include "hermite/iterators.hpp"
 #include "hermite/lib.hpp"
@@ -65,7 +66,7 @@ vec project_vec_nd(const vec & input, u_int dim, const ivec & dirs, std::string
     else if (index_set == "cross_nc") function = project<Cross_iterator_nc>;
     else if (index_set == "cube") function = project<Cube_iterator>;
     else if (index_set == "rectangle") function = project<Rectangle_iterator>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(input, dim, dirs);
 }
 
@@ -117,7 +118,7 @@ M project_mat_nd(const M & input, u_int dim, const ivec & dirs, std::string cons
     else if (index_set == "cross_nc") function = project<Cross_iterator_nc,M>;
     else if (index_set == "cube") function = project<Cube_iterator,M>;
     else if (index_set == "rectangle") function = project<Rectangle_iterator,M>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(input, dim, dirs);
 }
 
diff --git a/cpp/src/hermite/tensorize.cpp b/cpp/src/hermite/tensorize.cpp
index 5b65a1a..2df1ba8 100644
--- a/cpp/src/hermite/tensorize.cpp
+++ b/cpp/src/hermite/tensorize.cpp
@@ -20,6 +20,7 @@
 
 #include <iostream>
 #include <assert.h>
+#include <stdexcept>
 
 #include <boost/numeric/ublas/matrix_sparse.hpp>
 
@@ -47,8 +48,7 @@ void check_dims(const imat & dirs, u_int dim)
             u_int dir = dirs[i][j];
             if (dirs_present[dir])
             {
-                cout << "The same direction appears twice, exiting ..." << endl;
-                exit(1);
+                throw std::invalid_argument("The same direction appears twice");
             }
             else
             {
@@ -61,8 +61,7 @@ void check_dims(const imat & dirs, u_int dim)
     {
         if (!dirs_present[i])
         {
-            cout << "Missing direction, exiting ..." << endl;
-            exit(1);
+            throw std::invalid_argument("Missing direction");
         }
     }
 }
@@ -73,10 +72,7 @@ void check_degree(u_int size, u_int dim, u_int degree)
     u_int n_polys = Iterator::s_size(dim, degree);
     if (n_polys != size)
     {
-        cout << "Size of input does not match dimension!" << endl;
-        cout << "Expected dimension: " << n_polys << endl;
-        cout << "Actual dimension: " << size << endl;
-        exit(1);
+        throw std::invalid_argument("Size of input does not match dimension!");
     }
 }
 
@@ -129,7 +125,7 @@ vec tensorize_vecs_dirs(const mat & inputs, const imat & dirs, std::string const
     else if (index_set == "cross_nc") function = tensorize<Cross_iterator_nc>;
     else if (index_set == "cube") function = tensorize<Cube_iterator>;
     else if (index_set == "rectangle") function = tensorize<Rectangle_iterator>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(inputs, dirs);
 }
 
@@ -353,7 +349,7 @@ T tensorize_mats_dirs(const vector<S> & inputs, const imat & dirs, std::string c
     else if (index_set == "cross_nc") function = _tensorize_mats_dirs<Cross_iterator_nc,T,S>;
     else if (index_set == "cube") function = _tensorize_mats_dirs<Cube_iterator,T,S>;
     else if (index_set == "rectangle") function = _tensorize_mats_dirs<Rectangle_iterator,T,S>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(inputs, dirs);
 }
 
@@ -366,7 +362,7 @@ T tensorize_mats_axes(const vector<S> & inputs, std::string const & index_set)
     else if (index_set == "cross_nc") function = _tensorize_mats_axes<Cross_iterator_nc,T,S>;
     else if (index_set == "cube") function = _tensorize_mats_axes<Cube_iterator,T,S>;
     else if (index_set == "rectangle") function = _tensorize_mats_axes<Rectangle_iterator,T,S>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(inputs);
 }
 
diff --git a/cpp/src/hermite/transform.cpp b/cpp/src/hermite/transform.cpp
index 2e3677a..01ccd4a 100644
--- a/cpp/src/hermite/transform.cpp
+++ b/cpp/src/hermite/transform.cpp
@@ -21,6 +21,7 @@
 #include <cmath>
 #include <functional>
 #include <numeric>
+#include <stdexcept>
 #include <iostream>
 #include <fstream>
 #include <tuple>
@@ -91,8 +92,7 @@ vec _transform(
             {
                 if (degree % 2 == 1)
                 {
-                    std::cout << "Use even degree for Fourier." << std::endl;
-                    exit(1);
+                    throw std::invalid_argument("Use even degree for Fourier.");
                 }
 
                 // Maximal wave number
@@ -163,7 +163,7 @@ vec transform(
     else if (index_set == "cross_nc") function = _transform<Cross_iterator_nc>;
     else if (index_set == "cube") function = _transform<Cube_iterator>;
     else if (index_set == "rectangle") function = _transform<Rectangle_iterator>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(degree, input, nodes, weights, do_fourier, forward);
 }
 
diff --git a/cpp/src/hermite/varf.cpp b/cpp/src/hermite/varf.cpp
index b50b821..d3feef9 100644
--- a/cpp/src/hermite/varf.cpp
+++ b/cpp/src/hermite/varf.cpp
@@ -22,6 +22,7 @@
 
 #include <iostream>
 #include <ctime>
+#include <stdexcept>
 #include <string>
 
 #include "hermite/hermite.hpp"
@@ -102,8 +103,7 @@ cube triple_products_fourier(int degree)
 
     if (degree % 2 == 1)
     {
-        std::cout << "Use even degree for Fourier" << std::endl;
-        exit(1);
+        throw std::invalid_argument("Use even degree for Fourier");
     }
 
     // Maximal wave number
@@ -283,7 +283,7 @@ T varf(
     else if (index_set == "cross_nc") function = varf<Cross_iterator_nc,T>;
     else if (index_set == "cube") function = varf<Cube_iterator,T>;
     else if (index_set == "rectangle") function = varf<Rectangle_iterator,T>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(degree, input, nodes, weights, do_fourier);
 }
 
@@ -328,8 +328,7 @@ T varfd(
     }
     else
     {
-        std::cerr << "Invalid index set!" << std::endl;
-        exit(1);
+        throw std::invalid_argument("Invalid index set!");
     }
 
     u_int i;
@@ -412,8 +411,7 @@ mat varfd(
     }
     else
     {
-        std::cerr << "Invalid index set!" << std::endl;
-        exit(1);
+        throw std::invalid_argument("Invalid index set!");
     }
     m2->reset();
 
-- 
2.43.0


From b24c9955ee87b517cd585199b1fa34deab64331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:44 +0000
Subject: [PATCH 14/21] fix: check sizes and directions of the arguments before
 using them

---
 cpp/src/hermite/discretize.cpp |  5 +++++
 cpp/src/hermite/inner.cpp      |  9 ++++++++-
 cpp/src/hermite/iterators.cpp  |  8 ++++++--
 cpp/src/hermite/iterators.hpp  |  7 ++++++-
 cpp/src/hermite/project.cpp    | 12 ++++++++++++
 cpp/src/hermite/tensorize.cpp  | 35 +++++++++++++++++++++++++++-------
 cpp/src/hermite/transform.cpp  |  6 ++++++
 cpp/src/hermite/varf.cpp       |  3 +++
 8 files changed, 74 insertions(+), 11 deletions(-)

diff --git a/cpp/src/hermite/discretize.cpp b/cpp/src/hermite/discretize.cpp
index a789dc8..1766bf8 100644
--- a/cpp/src/hermite/discretize.cpp
+++ b/cpp/src/hermite/discretize.cpp
@@ -61,6 +61,11 @@ vec discretize(
     u_int dim = nodes.size();
 
     u_int i,j;
+    if (translation.size() != dim || dilation.size() != dim)
+        throw invalid_argument("Sizes of the arguments do not match");
+    for (vec const & row : dilation)
+        if (row.size() != dim)
+            throw invalid_argument("Sizes of the arguments do not match");
     vec node(dim);
     vec mapped_node(dim);
 
diff --git a/cpp/src/hermite/inner.cpp b/cpp/src/hermite/inner.cpp
index e008309..e1a910a 100644
--- a/cpp/src/hermite/inner.cpp
+++ b/cpp/src/hermite/inner.cpp
@@ -30,6 +30,8 @@
 #include "hermite/iterators.hpp"
 #include "hermite/lib.hpp"
 
+#define MAX(i, j) (i > j ? i : j)
+
 namespace hermite
 {
 
@@ -47,6 +49,10 @@ vec inner(const vec & s1,
     u_int dim1 = dirs1.size(),
           dim2 = dirs2.size();
 
+    for (u_int k = 1; k < MAX(dim1, dim2); k++)
+        if ((k < dim1 && dirs1[k] <= dirs1[k-1]) || (k < dim2 && dirs2[k] <= dirs2[k-1]))
+            throw std::invalid_argument("Directions must be in increasing order");
+
     u_int i = 0,
           j = 0;
 
@@ -98,7 +104,8 @@ vec inner(const vec & s1,
     #endif
 
     u_int degree = Iterator::s_get_degree(dim1, s1.size());
-    assert( degree == Iterator::s_get_degree(dim2, s2.size()) );
+    if (degree != Iterator::s_get_degree(dim2, s2.size()))
+        throw std::invalid_argument("Degrees must coincide");
 
     #ifdef DEBUG
     std::cout << "Initializing iterators" <<  std::endl;
diff --git a/cpp/src/hermite/iterators.cpp b/cpp/src/hermite/iterators.cpp
index 180b6d3..c6a8e21 100644
--- a/cpp/src/hermite/iterators.cpp
+++ b/cpp/src/hermite/iterators.cpp
@@ -411,8 +411,12 @@ imat Cross_iterator::s_list(u_int dim, u_int degree)
 u_int Cross_iterator::s_get_degree(u_int dim, u_int n_polys)
 {
     Cross_iterator m(dim, DEGREE_BISSECT_MAX);
-    assert (n_polys <= m.list.size());
-    return m.list[n_polys - 1][0];
+    if (n_polys == 0 || n_polys > m.list.size())
+        throw std::invalid_argument("Number of polynomials does not match a degree");
+    u_int degree = m.list[n_polys - 1][0];
+    if (s_size(dim, degree) != n_polys)
+        throw std::invalid_argument("Number of polynomials does not match a degree");
+    return degree;
 }
 
 u_int Cross_iterator::s_size(u_int dim, u_int degree)
diff --git a/cpp/src/hermite/iterators.hpp b/cpp/src/hermite/iterators.hpp
index 0d49733..d80332f 100644
--- a/cpp/src/hermite/iterators.hpp
+++ b/cpp/src/hermite/iterators.hpp
@@ -21,6 +21,7 @@
 #ifndef HERMITE_ITERATORS_H
 #define HERMITE_ITERATORS_H
 
+#include <stdexcept>
 #include <string>
 #include "hermite/io.hpp"
 #include "hermite/lib.hpp"
@@ -95,7 +96,11 @@ class Multi_index_iterator : public Vector_iterator
         u_int index_list;
         imat list;
 
-        Multi_index_iterator(u_int dim): Vector_iterator(dim), index_list(0) {}
+        Multi_index_iterator(u_int dim): Vector_iterator(dim), index_list(0)
+        {
+            if (dim == 0)
+                throw std::invalid_argument("Dimension must be positive");
+        }
 
     public:
         virtual ~Multi_index_iterator() = default;
diff --git a/cpp/src/hermite/project.cpp b/cpp/src/hermite/project.cpp
index dd04269..8aa0946 100644
--- a/cpp/src/hermite/project.cpp
+++ b/cpp/src/hermite/project.cpp
@@ -18,6 +18,7 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 #include "hermite/io.hpp"
@@ -33,9 +34,17 @@ using namespace std;
 namespace hermite
 {
 
+void check_dirs(const ivec & dirs, u_int dim)
+{
+    for (u_int i = 0; i < dirs.size(); i++)
+        if (dirs[i] >= dim || std::count(dirs.begin(), dirs.end(), dirs[i]) != 1)
+            throw std::invalid_argument("Invalid directions");
+}
+
 template<typename Iterator>
 vec project(const vec & input, u_int dim, const ivec & dirs)
 {
+    check_dirs(dirs, dim);
     u_int n_polys = input.size();
     u_int dim_sub = dirs.size();
     u_int degree = Iterator::s_get_degree(dim, n_polys);
@@ -79,7 +88,10 @@ vec project_vec_1d(const vec & input, u_int dim, u_int dir, std::string const &
 template<typename Iterator, typename M>
 M project(const M & input, u_int dim, const ivec & dirs)
 {
+    check_dirs(dirs, dim);
     u_int n_polys = matrix::size1(input);
+    if (matrix::size2(input) != n_polys)
+        throw std::invalid_argument("Matrix must be square");
     u_int dim_sub = dirs.size();
     u_int degree = Iterator::s_get_degree(dim, n_polys);
     u_int polys_sub = Iterator::s_size(dim_sub, degree);
diff --git a/cpp/src/hermite/tensorize.cpp b/cpp/src/hermite/tensorize.cpp
index 2df1ba8..4ff35b2 100644
--- a/cpp/src/hermite/tensorize.cpp
+++ b/cpp/src/hermite/tensorize.cpp
@@ -20,6 +20,7 @@
 
 #include <iostream>
 #include <assert.h>
+#include <set>
 #include <stdexcept>
 
 #include <boost/numeric/ublas/matrix_sparse.hpp>
@@ -46,6 +47,10 @@ void check_dims(const imat & dirs, u_int dim)
         for (u_int j = 0; j < dirs[i].size(); j++)
         {
             u_int dir = dirs[i][j];
+            if (dir >= dim)
+            {
+                throw std::invalid_argument("Missing direction");
+            }
             if (dirs_present[dir])
             {
                 throw std::invalid_argument("The same direction appears twice");
@@ -66,6 +71,15 @@ void check_dims(const imat & dirs, u_int dim)
     }
 }
 
+void check_distinct(const imat & dirs)
+{
+    std::set<u_int> dirs_present;
+    for (ivec const & d : dirs)
+        for (u_int dir : d)
+            if (!dirs_present.insert(dir).second)
+                throw std::invalid_argument("The same direction appears twice");
+}
+
 template<typename Iterator>
 void check_degree(u_int size, u_int dim, u_int degree)
 {
@@ -90,16 +104,17 @@ vec tensorize(const mat & inputs, const imat & dirs)
         dim += dims[i];
     }
 
+    if (inputs.empty() || inputs.size() != dirs.size())
+        throw std::invalid_argument("Number of inputs does not match directions");
+
     u_int degree = Iterator::s_get_degree(dims[0], inputs[0].size());
     std::vector<Iterator> it_mul;
     for (u_int i = 0; i < dirs.size(); i++)
         it_mul.push_back(Iterator(dims[i], degree));
 
-    #ifdef DEBUG
     check_dims(dirs, dim);
     for (u_int i = 0; i < dirs.size(); i++)
         check_degree<Iterator>(inputs[i].size(), dims[i], degree);
-    #endif
 
     u_int n_polys = Iterator::s_size(dim, degree);
     vec results(n_polys, 0.);
@@ -140,6 +155,8 @@ vec tensorize_vecs_axes(const mat & inputs, std::string const & index_set)
 
 vec tensorize_vec_id(const vec & input, u_int dim, u_int dir, std::string const & index_set)
 {
+    if (dir >= dim)
+        throw std::invalid_argument("Invalid direction");
     u_int degree = input.size() - 1;
     vec cst(degree + 1, 0.); cst[0] = 1;
     mat vecs(dim, cst);
@@ -284,8 +301,9 @@ T _tensorize_mats_dirs(const vector<S> & inputs, const imat & dirs)
     #ifdef DEBUG
     cout << "Entering tensorize with dirs = " << endl << dirs << endl;
     cout << "--> Calculating dimensions." << endl;
-    assert (inputs.size() == dirs.size());
     #endif
+    if (inputs.empty() || inputs.size() != dirs.size())
+        throw std::invalid_argument("Number of inputs does not match directions");
     u_int dim = 0;
     ivec dims(dirs.size());
     for (u_int i = 0; i < dirs.size(); i++)
@@ -302,13 +320,14 @@ T _tensorize_mats_dirs(const vector<S> & inputs, const imat & dirs)
     for (u_int i = 0; i < inputs.size(); i++)
         sp_inputs[i] = matrix::convert<spmat>(inputs[i]);
 
-    #ifdef DEBUG
-    check_dims(dirs, dim);
+    check_distinct(dirs);
 
     u_int degree = Iterator::s_get_degree(dims[0], matrix::size1(inputs[0]));
-    for (u_int i = 1; i < inputs.size(); i++)
+    for (u_int i = 0; i < inputs.size(); i++)
+    {
         check_degree<Iterator>(matrix::size1(inputs[i]), dims[i], degree);
-    #endif
+        check_degree<Iterator>(matrix::size2(inputs[i]), dims[i], degree);
+    }
 
     spmat result = sp_inputs[0];
     ivec d = dirs[0], d_old, _a1, _a2;
@@ -369,6 +388,8 @@ T tensorize_mats_axes(const vector<S> & inputs, std::string const & index_set)
 template<typename T, typename S>
 T tensorize_mat_id(const S & input, u_int dim, u_int dir, std::string const & index_set)
 {
+    if (dir >= dim)
+        throw std::invalid_argument("Invalid direction");
     u_int degree = matrix::size1(input) - 1;
     T eye = matrix::eye<T>(degree + 1);
     vector<T> mats(dim, eye);
diff --git a/cpp/src/hermite/transform.cpp b/cpp/src/hermite/transform.cpp
index 01ccd4a..ca70961 100644
--- a/cpp/src/hermite/transform.cpp
+++ b/cpp/src/hermite/transform.cpp
@@ -64,6 +64,12 @@ vec _transform(
         n_points_tot *= n_points[i];
     }
 
+    if (do_fourier.size() != dim || input.size() != (forward ? n_points_tot : n_polys))
+        throw std::invalid_argument("Sizes of the arguments do not match");
+    for (i = 0; forward && i < dim; i++)
+        if (weights.size() != dim || weights[i].size() != n_points[i])
+            throw std::invalid_argument("Sizes of nodes and weights do not match");
+
     vec output;
     if (forward)
     {
diff --git a/cpp/src/hermite/varf.cpp b/cpp/src/hermite/varf.cpp
index d3feef9..6988d9f 100644
--- a/cpp/src/hermite/varf.cpp
+++ b/cpp/src/hermite/varf.cpp
@@ -331,6 +331,9 @@ T varfd(
         throw std::invalid_argument("Invalid index set!");
     }
 
+    if (direction >= dim || var.size1() != m->size() || var.size2() != m->size())
+        throw std::invalid_argument("Matrix or direction does not match dimension and degree");
+
     u_int i;
     imat multi_indices;
     for (i = 0, m->reset(); i < var.size1(); i++, m->increment())
-- 
2.43.0


From 93e6e684728d439e7278373283c5248d0092a8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:47 +0000
Subject: [PATCH 15/21] fix: converters: read the matrix where it is, reject
 other element types

---
 cpp/src/hermite/python/converters.cpp | 30 +++++++++++++++++----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/cpp/src/hermite/python/converters.cpp b/cpp/src/hermite/python/converters.cpp
index dfabb89..9f1066d 100644
--- a/cpp/src/hermite/python/converters.cpp
+++ b/cpp/src/hermite/python/converters.cpp
@@ -19,6 +19,7 @@
  */
 
 #include <iostream>
+#include <stdexcept>
 
 #include <boost/python.hpp>
 #include <boost/python/numpy.hpp>
@@ -93,16 +94,20 @@ cmat to_bmat(const np::ndarray & input)
     u_int n_rows = (u_int) shape[0];
     u_int n_cols = (u_int) shape[1];
 
-    u_int stride_cols = (u_int) strides[1] / sizeof(double);
+    Py_intptr_t stride_rows = strides[0] / (Py_intptr_t) sizeof(double);
+    if (!np::equivalent(input.get_dtype(), np::dtype::get_builtin<double>()))
+        throw std::invalid_argument("Elements of the matrix must be of type double");
 
-    if (stride_cols != 1)
+    if (strides[1] != sizeof(double) || strides[0] % sizeof(double) != 0)
     {
         cout << "Rows of the matrix must be stored contiguously" << endl;
         throw ROWS_NOT_CONTIGUOUS;
     }
 
-    auto sizes = boost::extents[n_rows][n_cols];
-    cmat result = cmat(boost::multi_array_ref<double, 2>(data, sizes)); // copy
+    cmat result(boost::extents[n_rows][n_cols]);
+    for (u_int i = 0; i < n_rows; i++)
+        for (u_int j = 0; j < n_cols; j++)
+            result[i][j] = data[i*stride_rows + j];
     return result;
 }
 
@@ -121,10 +126,11 @@ boost_mat to_boost_mat(const np::ndarray & input)
     u_int n_rows = (u_int) shape[0];
     u_int n_cols = (u_int) shape[1];
 
-    u_int stride_rows = (u_int) strides[0] / sizeof(double);
-    u_int stride_cols = (u_int) strides[1] / sizeof(double);
+    Py_intptr_t stride_rows = strides[0] / (Py_intptr_t) sizeof(double);
+    if (!np::equivalent(input.get_dtype(), np::dtype::get_builtin<double>()))
+        throw std::invalid_argument("Elements of the matrix must be of type double");
 
-    if (stride_cols != 1)
+    if (strides[1] != sizeof(double) || strides[0] % sizeof(double) != 0)
     {
         cout << "Rows of the matrix must be stored contiguously" << endl;
         throw ROWS_NOT_CONTIGUOUS;
@@ -151,11 +157,13 @@ mat to_mat(const np::ndarray & input)
     double * data = reinterpret_cast<double*>(input.get_data());
 
     u_int n_rows = (u_int) shape[0];
+    u_int n_cols = (u_int) shape[1];
 
-    u_int stride_rows = (u_int) strides[0] / sizeof(double);
-    u_int stride_cols = (u_int) strides[1] / sizeof(double);
+    Py_intptr_t stride_rows = strides[0] / (Py_intptr_t) sizeof(double);
+    if (!np::equivalent(input.get_dtype(), np::dtype::get_builtin<double>()))
+        throw std::invalid_argument("Elements of the matrix must be of type double");
 
-    if (stride_cols != 1)
+    if (strides[1] != sizeof(double) || strides[0] % sizeof(double) != 0)
     {
         cout << "Rows of the matrix must be stored contiguously" << endl;
         throw ROWS_NOT_CONTIGUOUS;
@@ -164,7 +172,7 @@ mat to_mat(const np::ndarray & input)
     mat result(n_rows);
     for (u_int i = 0; i < n_rows; i++)
     {
-        result[i] = vec(data + i*stride_rows, data + (i+1)*stride_rows);
+        result[i] = vec(data + i*stride_rows, data + i*stride_rows + n_cols);
     }
 
     return result;
-- 
2.43.0


From b57ce5c9a8e11d0da43512285ef6c651ba2040b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:47 +0000
Subject: [PATCH 16/21] fix: tensorize: refuse matrices with rows of different
 sizes

---
 cpp/src/hermite/sparse.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/src/hermite/sparse.cpp b/cpp/src/hermite/sparse.cpp
index 1ac9c7d..c0e60ef 100644
--- a/cpp/src/hermite/sparse.cpp
+++ b/cpp/src/hermite/sparse.cpp
@@ -18,6 +18,8 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <stdexcept>
+
 #include "hermite/sparse.hpp"
 #include "hermite/io.hpp"
 
@@ -47,6 +49,8 @@ spmat to_spmat(const mat & input)
     spmat result(input.size(), input[0].size());
     for (u_int i = 0; i < input.size(); i++)
     {
+        if (input[i].size() != input[0].size())
+            throw std::invalid_argument("Rows of the matrix must have the same size");
         for (u_int j = 0; j < input[0].size(); j++)
         {
             if(input[i][j] != 0)
-- 
2.43.0


From 9875fce98bf36d53910940b860d82f9fd70ed7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:47 +0000
Subject: [PATCH 17/21] fix: cache: tell apart symbolic floats, masked,
 structured and object arrays

---
 hermipy/cache.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index bd84249..130398b 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -48,12 +48,21 @@ def gen_hash(extend=None):
             a = argument
             new_args = [a.data, a.indices, a.indptr, a.shape]
             return digest('csr', the_hash(new_args))
+        if isinstance(argument, np.ma.MaskedArray):
+            mask = np.ma.getmaskarray(argument)
+            return digest('masked', the_hash([argument.data, mask]))
         if isinstance(argument, np.ndarray):
-            content = hashlib.md5(np.ascontiguousarray(argument)).hexdigest()
-            return digest('array', argument.dtype.str + str(argument.shape)
+            kind = 'matrix' if isinstance(argument, np.matrix) else 'array'
+            if argument.dtype.hasobject:
+                content = the_hash(argument.tolist())
+            else:
+                content = np.ascontiguousarray(argument)
+                content = hashlib.md5(content).hexdigest()
+            return digest(kind, str(argument.dtype) + str(argument.shape)
                           + content)
         if isinstance(argument, sym.Basic):
-            return digest('sym', str(argument))
+            # Unlike str, this includes all digits and assumptions
+            return digest('sym', sym.srepr(argument))
         if isinstance(argument, (list, tuple, frozenset)):
             hashes = [the_hash(e) for e in argument]
             if isinstance(argument, frozenset):
-- 
2.43.0


From ed780260cb31a8ee5ededdd7f3422c105bf0a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:51 +0000
Subject: [PATCH 18/21] fix: refuse empty matrices, vectors and grids instead
 of reading their first row

---
 cpp/src/hermite/iterators.hpp         | 8 +++++++-
 cpp/src/hermite/matrix.hpp            | 2 +-
 cpp/src/hermite/python/converters.cpp | 2 +-
 cpp/src/hermite/sparse.cpp            | 2 +-
 cpp/src/hermite/tensorize.cpp         | 2 ++
 5 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cpp/src/hermite/iterators.hpp b/cpp/src/hermite/iterators.hpp
index d80332f..4becb8e 100644
--- a/cpp/src/hermite/iterators.hpp
+++ b/cpp/src/hermite/iterators.hpp
@@ -85,7 +85,13 @@ class Grid_iterator : public Vector_iterator
 
         void increment();
         Grid_iterator(const ivec & upper_bounds):
-            Vector_iterator(upper_bounds.size()), upper_bounds(upper_bounds) {}
+            Vector_iterator(upper_bounds.size()), upper_bounds(upper_bounds)
+        {
+            if (dim == 0)
+                throw std::invalid_argument("Dimension must be positive");
+            for (u_int bound : upper_bounds)
+                full = full || bound == 0;
+        }
 };
 
 // Iterators on multi-indices
diff --git a/cpp/src/hermite/matrix.hpp b/cpp/src/hermite/matrix.hpp
index 145c402..50100a8 100644
--- a/cpp/src/hermite/matrix.hpp
+++ b/cpp/src/hermite/matrix.hpp
@@ -53,7 +53,7 @@ namespace matrix
 
     inline u_int size2(const mat & input)
     {
-        return input[0].size();
+        return input.empty() ? 0 : input[0].size();
     }
 
     inline u_int size1(const spmat & input)
diff --git a/cpp/src/hermite/python/converters.cpp b/cpp/src/hermite/python/converters.cpp
index 9f1066d..cf838c6 100644
--- a/cpp/src/hermite/python/converters.cpp
+++ b/cpp/src/hermite/python/converters.cpp
@@ -39,7 +39,7 @@ template <>
 np::ndarray to_numpy(const mat & input)
 {
     u_int n_rows = input.size();
-    u_int n_cols = input[0].size();
+    u_int n_cols = n_rows == 0 ? 0 : input[0].size();
     p::tuple shape = p::make_tuple(n_rows, n_cols);
     p::tuple stride = p::make_tuple(sizeof(double));
     np::dtype dtype = np::dtype::get_builtin<double>();
diff --git a/cpp/src/hermite/sparse.cpp b/cpp/src/hermite/sparse.cpp
index c0e60ef..8207353 100644
--- a/cpp/src/hermite/sparse.cpp
+++ b/cpp/src/hermite/sparse.cpp
@@ -46,7 +46,7 @@ mat row_col_val(const spmat & input)
 
 spmat to_spmat(const mat & input)
 {
-    spmat result(input.size(), input[0].size());
+    spmat result(input.size(), input.empty() ? 0 : input[0].size());
     for (u_int i = 0; i < input.size(); i++)
     {
         if (input[i].size() != input[0].size())
diff --git a/cpp/src/hermite/tensorize.cpp b/cpp/src/hermite/tensorize.cpp
index 4ff35b2..ab3b955 100644
--- a/cpp/src/hermite/tensorize.cpp
+++ b/cpp/src/hermite/tensorize.cpp
@@ -157,6 +157,8 @@ vec tensorize_vec_id(const vec & input, u_int dim, u_int dir, std::string const
 {
     if (dir >= dim)
         throw std::invalid_argument("Invalid direction");
+    if (input.empty())
+        throw std::invalid_argument("Number of polynomials does not match a degree");
     u_int degree = input.size() - 1;
     vec cst(degree + 1, 0.); cst[0] = 1;
     mat vecs(dim, cst);
-- 
2.43.0


From a28ab5ed621b271bec17699aa7206b8afbb8bb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:24 +0000
Subject: [PATCH 19/21] fix: create the iterator classes of the vector types
 when the module is imported

---
 cpp/src/hermite/python/module.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/src/hermite/python/module.cpp b/cpp/src/hermite/python/module.cpp
index e1369bb..840b722 100644
--- a/cpp/src/hermite/python/module.cpp
+++ b/cpp/src/hermite/python/module.cpp
@@ -70,6 +70,10 @@ BOOST_PYTHON_MODULE(hermite_cpp)
         .def(vector_indexing_suite<imat>())
         ;
 
+    // Create the iterator classes, which a failure at first use leaves incomplete
+    for (object v : {object(vec()), object(mat()), object(cube()), object(ivec()), object(imat())})
+        v.attr("__iter__")();
+
     class_<cmat>("contiguous_mat");
     class_<boost_mat>("boost_mat")
         .def("size1", &spmat::size1)
-- 
2.43.0


From 482f2dfcf519a4d717f78aba8e4e4ff235633485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:04 +0000
Subject: [PATCH 20/21] fix: stats: read the clock before entering the nesting
 level, so that an interrupt there does not leave it wrong

---
 hermipy/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/stats.py b/hermipy/stats.py
index c4d5fcd..6ca768f 100644
--- a/hermipy/stats.py
+++ b/hermipy/stats.py
@@ -65,8 +65,8 @@ def log_stats(force=False):
             if rc.settings['trails'] or force:
                 print(indent_str + "Entering " + key)
 
-            indent += 1
             time_start = time.perf_counter()
+            indent += 1
             try:
                 result = function(*args, **kwargs)
             finally:
-- 
2.43.0


From 8c00520e7a7b574f9782d2be3cb6c033c75390c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:42 +0000
Subject: [PATCH 21/21] fix: compare the covariances of quadrature and series
 with a matrix product

Quad.eval multiplied the inverse of the factor of the series elementwise
with the factor of the quadrature, so that it evaluated a series with an
incompatible covariance without complaint and refused a compatible one.
---
 hermipy/quad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index fcd7952..d935309 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -314,7 +314,7 @@ class Quad:
 
         inv = la.inv(series.position.factor)
         translation = inv.dot(self.position.mean - series.position.mean)
-        factor = inv * self.position.factor
+        factor = inv.dot(self.position.factor)
         if la.norm(factor - np.diag(np.diag(factor)), 2) > 1e-8:
             raise ValueError("Incompatible covariance matrices")
         mapped_nodes = self.nodes.copy()
-- 
2.43.0

