From a29e7809629a1710407f942d8c9073d8a33280ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 01/57] fix: factor of a covariance matrix with repeated
 eigenvalues

---
 hermipy/position.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index 2684cc3..2dbe5d1 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -100,15 +100,18 @@ class Position:
 
         self.types = ["hermite"]*self.dim if types is None else types
 
-        eigval, eigvec = la.eig(self.cov)
-        self.factor = np.matmul(eigvec, np.sqrt(np.diag(eigval)))
-
         diag_cov = np.diag(np.diag(self.cov))
 
         self.is_diag = True
         if len(self.dirs) > 0 and la.norm(self.cov - diag_cov, 2) > 1e-10:
             self.is_diag = False
 
+        # Factor such that factor * factor^T = cov. The eigenvectors returned
+        # by eig are not orthogonal when an eigenvalue is repeated.
+        eig = la.eig if self.is_diag else la.eigh
+        eigval, eigvec = eig(self.cov)
+        self.factor = np.matmul(eigvec, np.sqrt(np.diag(eigval)))
+
     def __eq__(self, other):
         return self.dirs == other.dirs \
             and la.norm(self.mean - other.mean, 2) < self.very_small \
-- 
2.43.0


From e1a18481b93e4b393bcb6dfed6cc493845d123c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 02/57] fix: evaluate a series at a quadrature with
 non-diagonal covariance

---
 hermipy/quad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 923ae72..47c503b 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -314,7 +314,7 @@ class Quad:
 
         inv = la.inv(series.position.factor)
         translation = inv.dot(self.position.mean - series.position.mean)
-        factor = inv * self.position.factor
+        factor = inv.dot(self.position.factor)
         if la.norm(factor - np.diag(np.diag(factor)), 2) > 1e-8:
             raise ValueError("Incompatible covariance matrices")
         mapped_nodes = self.nodes.copy()
-- 
2.43.0


From 3ac39e4d10ef7089949e61f010dfc6fabfb84f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 03/57] fix: derivatives with respect to x when the covariance
 is not diagonal

---
 hermipy/quad.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 47c503b..e48c02e 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -351,13 +351,16 @@ class Quad:
         var = self.varf(function, degree, sparse=sparse,
                         index_set=index_set, tensorize=False)
         mat = var.matrix
-        eigval, _ = la.eig(self.position.cov)
+        # Chain rule: ∂/∂x_d = sum_j inv_factor[j][d] ∂/∂ξ_j
+        inv_factor = la.inv(self.position.factor)
         for d in directions:
             rel_dir = self.position.dirs.index(d)
-            mat = core.varfd(self.position.dim, degree, rel_dir,
-                             mat, do_fourier=self.do_fourier[rel_dir],
-                             index_set=index_set)
-            mat = mat/np.sqrt(eigval[rel_dir])
+            terms = [core.varfd(self.position.dim, degree, j,
+                                mat, do_fourier=self.do_fourier[j],
+                                index_set=index_set)*inv_factor[j][rel_dir]
+                     for j in range(self.position.dim)
+                     if inv_factor[j][rel_dir] != 0]
+            mat = sum(terms[1:], terms[0])
         return hm.Varf(mat, self.position,
                        factor=self.factor, index_set=index_set)
 
-- 
2.43.0


From edceec14b0843f08499f596bf20d830e56390525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 04/57] fix: to_function scales by the standard deviation and
 includes the factor

---
 hermipy/series.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hermipy/series.py b/hermipy/series.py
index 60f270d..b2f25f6 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -261,6 +261,9 @@ does not match number of multi-indices!")
         if not self.position.is_diag:
             raise ValueError("Position must be diagonal!")
 
+        if any(t != "hermite" for t in self.position.types):
+            raise ValueError("Only Hermite series are supported!")
+
         def rec_a(i):
             return float(1/np.sqrt(i+1))
 
@@ -274,7 +277,7 @@ does not match number of multi-indices!")
             var = func.Function.xyz[d]
             h0 = func.Function('1', dirs=dirs)
             μ, σ = self.position.mean[i], self.position.cov[i][i]
-            f1 = np.sqrt(σ) * (var - μ)
+            f1 = (var - μ) / np.sqrt(σ)
             h1 = func.Function(f1, dirs=dirs)
             hermite_dirs.append([h0, h1])
             for j in range(1, self.degree):
@@ -288,7 +291,7 @@ does not match number of multi-indices!")
             for i in range(0, self.position.dim):
                 result_m *= hermite_dirs[i][m[i]]
             result += result_m
-        return result
+        return result * self.factor
 
     def to_cross(self, degree):
         if not self.index_set == "triangle" or \
-- 
2.43.0


From a3660943f8e305d97e881739d9c6c4a0ad67cac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 05/57] fix: Series.to_cross keeps the factor

---
 hermipy/series.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermipy/series.py b/hermipy/series.py
index b2f25f6..1f24642 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -298,4 +298,5 @@ does not match number of multi-indices!")
            not degree + self.position.dim - 1 <= self.degree:
             raise ValueError("Invalid argument!")
         coeffs = self.coeffs[lib.cross_in_triangle(self.position.dim, degree)]
-        return Series(coeffs, self.position, index_set="cross")
+        return Series(coeffs, self.position,
+                      factor=self.factor, index_set="cross")
-- 
2.43.0


From 4fbfedad9d7376b620de33d4a3bdf85b7817f858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 06/57] fix: Varf.project looks up directions in the position

---
 hermipy/varf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index 93fdb4f..97182ef 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -136,7 +136,7 @@ class Varf:
     def project(self, directions):
         if isinstance(directions, int):
             directions = [directions]
-        rel_dirs = [self.dirs.index(d) for d in directions]
+        rel_dirs = [self.position.dirs.index(d) for d in directions]
         p_matrix = core.project(self.matrix, self.position.dim, rel_dirs,
                                 index_set=self.index_set)
         p_pos = self.position.project(directions)
-- 
2.43.0


From f4c7a9d00c43e955b3af548ecabf198f915dc113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 07/57] fix: mapped_nodes uses the names of the variables

---
 hermipy/quad.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index e48c02e..8e8e7a3 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -241,8 +241,8 @@ class Quad:
 
     def mapped_nodes(self):
         coords_nodes = []
-        for i in range(self.position.dim):
-            coord = 'x_{}'.format(i)
+        for d in self.position.dirs:
+            coord = 'x{}'.format(d)
             coords_nodes.append(self.discretize(coord))
         return np.asarray(np.vstack(coords_nodes)).T
 
-- 
2.43.0


From 8fe7255832e5e37a267fcde4277418ffe920af78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 08/57] fix: gmres without a preconditioner

---
 hermipy/varf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index 97182ef..f5f0ee5 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -209,6 +209,7 @@ class Varf:
             # Extend hash function to ignore callback
             from scipy.sparse.linalg import gmres
             cachefun = cache.cache(quiet=True, hash_extend=lambda arg: '0')
+            M = None
             if preconditioner == 'ilu':
                 ilu, n = spla.spilu(matrix), matrix.shape[0]
                 M = spla.LinearOperator((n, n), ilu.solve)
-- 
2.43.0


From 7436fb5529fd66197b93c1345802fc1549a37ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 09/57] fix: default directions of a position given only by
 mean or cov

---
 hermipy/position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index 2dbe5d1..b7715c7 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -90,7 +90,7 @@ class Position:
             raise ValueError("Invalid arguments dim/dirs")
 
         # Defaults to first directions
-        self.dirs = list(range(dim)) if dirs is None else dirs
+        self.dirs = list(range(self.dim)) if dirs is None else dirs
 
         self.mean = np.zeros(self.dim) if mean is None \
             else np.asarray(mean, float)
-- 
2.43.0


From d874ebbcc78f2c5445fe5a721ca1941932755635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 10/57] fix: dimension of a Fourier quadrature built from a
 position

---
 hermipy/quad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 8e8e7a3..a89ca52 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -101,7 +101,7 @@ class Quad:
         # Determine dimension
         if position is not None:
             dim = position.dim
-        if dirs is not None:
+        elif dirs is not None:
             dim = len(dirs)
         elif bounds is not None:
             dim = len(bounds)
-- 
2.43.0


From 620a0d0e42dfcb19e4311e5474da152c6edb4e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 11/57] fix: weight of a position with both Hermite and Fourier
 directions

---
 hermipy/position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index b7715c7..95a0854 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -139,7 +139,7 @@ class Position:
         var = [func.Function.xyz[self.dirs[i]] for i in ind]
         inv_cov = la.inv(sub_cov)
         potential = 0.5 * inv_cov.dot(var - sub_mean).dot(var - sub_mean)
-        normalization = 1/(sym.sqrt((2*sym.pi)**self.dim * la.det(sub_cov)))
+        normalization = 1/(sym.sqrt((2*sym.pi)**len(ind) * la.det(sub_cov)))
         return normalization * sym.exp(-potential)
 
     def weights(self):
-- 
2.43.0


From b7881682bc1cfb83f32e243822ef70281d1386e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 12/57] fix: a common direction must have the same type in both
 positions

---
 hermipy/position.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index 95a0854..4ed4bd4 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -49,8 +49,9 @@ class Position:
             for d in [d for d in p1.dirs if d in p2.dirs]:
                 i1, i2 = p1.dirs.index(d), p2.dirs.index(d)
                 if not p1.mean[i1] == p2.mean[i2] or \
-                   not p1.cov[i1][i1] == p2.cov[i2][i2]:
-                    raise ValueError("Mean or Cov do not match!")
+                   not p1.cov[i1][i1] == p2.cov[i2][i2] or \
+                   not p1.types[i1] == p2.types[i2]:
+                    raise ValueError("Mean, Cov or type do not match!")
 
             # Tensorization
             for d in dirs_result:
-- 
2.43.0


From b9c372fe929f59525fe536d27aacef0b7ed98650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 13/57] fix: Varf.subdegree rejects the non-consistent cross,
 like Series

---
 hermipy/varf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index f5f0ee5..4abb846 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -145,6 +145,11 @@ class Varf:
                     factor=factor, index_set=self.index_set)
 
     def subdegree(self, degree):
+
+        # Only works if index set is consistent
+        if self.index_set == "cross_nc":
+            raise ValueError("cross_nc not supported!")
+
         if not degree <= self.degree:
             raise ValueError("Invalid argument: degree too high!")
         n_polys = core.iterator_size(self.position.dim, degree,
-- 
2.43.0


From f6820c0bda849a4a084291163f03bfef33ea5f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 14/57] fix: a function is discretized in the directions of the
 quadrature

---
 hermipy/function.py | 6 +++---
 hermipy/quad.py     | 3 +--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/hermipy/function.py b/hermipy/function.py
index 6d055ca..76196c5 100644
--- a/hermipy/function.py
+++ b/hermipy/function.py
@@ -47,9 +47,9 @@ class Function():
     def __init__(self, expr, dirs=None, dim=None):
 
         if isinstance(expr, Function):
-            self.sym = expr.sym
-            self.dirs = expr.dirs
-            return
+            if dirs is None and dim is None:
+                dirs = expr.dirs
+            expr = expr.sym
 
         if not isinstance(expr, sympy.Basic):
             expr = sympy.sympify(expr, locals=self.conv)
diff --git a/hermipy/quad.py b/hermipy/quad.py
index a89ca52..9cf3eb3 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -247,8 +247,7 @@ class Quad:
         return np.asarray(np.vstack(coords_nodes)).T
 
     def discretize(self, f):
-        if not isinstance(f, hm.Function):
-            f = hm.Function(f, dirs=self.position.dirs)
+        f = hm.Function(f, dirs=self.position.dirs)
         function = core.discretize(f.ccode(), self.nodes,
                                    self.position.mean, self.position.factor)
         return function
-- 
2.43.0


From 5efb9d9350de8fd10021f898f79e9605b0b7ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 15/57] fix: a factor that couples kept and dropped directions
 can't be projected

---
 hermipy/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/function.py b/hermipy/function.py
index 76196c5..e7fbc6c 100644
--- a/hermipy/function.py
+++ b/hermipy/function.py
@@ -139,7 +139,7 @@ function can't be split")
         for v, term in split_fun[0].items():
             if v.issubset(dirs) and v != frozenset():
                 result *= term.sym
-            elif set(dirs) != set() and set(dirs).issubset(v):
+            elif v.intersection(dirs) != frozenset():
                 raise ValueError("Can't project factor!")
         return Function(result, dirs=dirs)
 
-- 
2.43.0


From 9b9adfa27fcfd61aaef6c4e68510923e0f61b5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:19 +0000
Subject: [PATCH 16/57] fix: distinct arguments have distinct cache keys

---
 hermipy/cache.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index 824bce6..8bd1ac6 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -36,30 +36,34 @@ def gen_hash(extend=None):
     if extend is None:
         extend = default_extend
 
+    # The kind of the argument is part of the key: 1, '1', [1] and None differ
+    def digest(kind, *contents):
+        encoded_str = repr((kind, *contents)).encode('utf-8')
+        return hashlib.md5(encoded_str).hexdigest()
+
     def the_hash(argument):
         if isinstance(argument, str):
-            encoded_str = argument.encode('utf-8')
-            return hashlib.md5(encoded_str).hexdigest()
+            return digest('str', argument)
         if isinstance(argument, sparse.csr_matrix):
             a = argument
             new_args = [a.data, a.indices, a.indptr, a.shape]
-            return the_hash(new_args)
+            return digest('csr', the_hash(new_args))
         if isinstance(argument, np.ndarray):
-            return hashlib.md5(argument).hexdigest()
+            data = hashlib.md5(np.ascontiguousarray(argument)).hexdigest()
+            return digest('array', argument.dtype.str, argument.shape, data)
         if isinstance(argument, sym.Basic):
-            return the_hash(str(argument))
+            return digest('sym', str(argument))
         if isinstance(argument, (list, tuple, frozenset)):
-            hashes = [the_hash(e) for e in argument]
-            return the_hash('list' + '-'.join(hashes))
+            return digest('list', *[the_hash(e) for e in argument])
         if isinstance(argument, dict):
-            hashes_k = ['k'] + [the_hash(kw) for kw in argument]
-            hashes_v = ['v'] + [the_hash(argument[kw]) for kw in argument]
-            return the_hash(hashes_k + hashes_v)
+            hashes_k = [the_hash(kw) for kw in argument]
+            hashes_v = [the_hash(argument[kw]) for kw in argument]
+            return digest('dict', hashes_k, hashes_v)
         if isinstance(argument, (int, float)):
-            return the_hash(str(hash(argument)))
+            return digest('number', repr(argument))
         if argument is None:
-            return the_hash("")
-        return the_hash(extend(argument))
+            return digest('none')
+        return digest('extend', the_hash(extend(argument)))
 
     return the_hash
 
@@ -110,11 +114,12 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
             if 'cache' in kwargs:
                 use_cache = kwargs['cache']
                 del kwargs['cache']
-            hashes, prefix = [], function.__name__
+            prefix = function.__name__
+            hashes = [hash_fun(getattr(function, '__module__', None))]
             for arg in args:
                 hashes.append(hash_fun(arg))
             for kw in kwargs:
-                hashes.append(hash_fun(kw))
+                hashes.append('kw' + hash_fun(kw))
                 hashes.append(hash_fun(kwargs[kw]))
             hash_args = hash_fun(('-'.join(hashes)))
             if settings['debug']:
-- 
2.43.0


From f3e3e04e9d9bc622e3d73f4105ab442c9d446ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:19 +0000
Subject: [PATCH 17/57] fix: a number read from the cache keeps its type

---
 hermipy/cache.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index 8bd1ac6..bfce56a 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -103,7 +103,7 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
     def extended_load(filename):
         result = np.load(filename)
         if result.shape == ():
-            result = float(result)
+            result = result.item()
         return result
 
     def cache_aux(function):
@@ -144,9 +144,6 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                 try:
                     result_cache = load(savefile)
                     if use_cache:
-                        if isinstance(result_cache, float) and \
-                                result_cache.is_integer():
-                            result_cache = int(result_cache)
                         return result_cache
                 except ValueError:
                     cached_exists = False
-- 
2.43.0


From bc70a3cb0194309c40b1cf0fcddd5308772d0913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:19 +0000
Subject: [PATCH 18/57] fix: functions that return a tuple work when the cache
 is enabled

---
 hermipy/cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index bfce56a..95d4ac1 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -160,8 +160,9 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                     raise ValueError("Result does not correspond to cache")
                 return result
 
+            # Tuples (e.g. the result of eigs) are not arrays
             save = sparse.save_npz if is_sparse_result else np.save
-            if settings['cache']:
+            if settings['cache'] and not isinstance(result, tuple):
                 save(savefile, result)
             return result
 
-- 
2.43.0


From c0dd23df147a17868afac6514d8463554e62aebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:19 +0000
Subject: [PATCH 19/57] fix: cache entries are written atomically and
 unreadable ones are ignored

---
 hermipy/cache.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index 95d4ac1..e5810ad 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -22,6 +22,7 @@ import sympy as sym
 import numpy as np
 import scipy.sparse as sparse
 import os
+import uuid
 
 from functools import wraps
 from hermipy.settings import settings
@@ -126,26 +127,22 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                 print("Hash of arguments: " + prefix + '-' + '-'.join(hashes))
 
             cachedir = settings['cachedir']
-            if not os.path.exists(cachedir):
-                os.makedirs(cachedir)
-
             savefile = cachedir + '/' + prefix + '-' + str(hash_args)
 
             cached_exists = False
             if os.path.isfile(savefile + '.npy'):
                 cached_exists, is_sparse_cache = True, False
-                savefile += '.npy'
             elif os.path.isfile(savefile + '.npz'):
                 cached_exists, is_sparse_cache = True, True
-                savefile += '.npz'
 
             if cached_exists:
-                load = sparse.load_npz if is_sparse_cache else extended_load
+                load, extension = (sparse.load_npz, '.npz') \
+                    if is_sparse_cache else (extended_load, '.npy')
                 try:
-                    result_cache = load(savefile)
+                    result_cache = load(savefile + extension)
                     if use_cache:
                         return result_cache
-                except ValueError:
+                except Exception:  # Unreadable entry: calculate it again
                     cached_exists = False
 
             result = function(*args, **kwargs)
@@ -161,9 +158,15 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                 return result
 
             # Tuples (e.g. the result of eigs) are not arrays
-            save = sparse.save_npz if is_sparse_result else np.save
+            save, extension = (sparse.save_npz, '.npz') \
+                if is_sparse_result else (np.save, '.npy')
             if settings['cache'] and not isinstance(result, tuple):
-                save(savefile, result)
+                os.makedirs(cachedir, exist_ok=True)
+                # Other processes see either no entry or a complete one
+                tmpfile = savefile + '.' + uuid.uuid4().hex + '.tmp'
+                with open(tmpfile, 'wb') as f:
+                    save(f, result)
+                os.replace(tmpfile, savefile + extension)
             return result
 
         return wrapper
-- 
2.43.0


From 8d46a601c66772a91ab66b6df1a68585659575a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:04 +0000
Subject: [PATCH 20/57] fix: conversion of arrays that are not square,
 contiguous or double

---
 cpp/src/hermite/python/converters.cpp | 46 ++++++++++++++++++++-------
 cpp/src/hermite/python/module.cpp     |  4 +--
 cpp/src/hermite/sparse.cpp            |  5 +--
 3 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/cpp/src/hermite/python/converters.cpp b/cpp/src/hermite/python/converters.cpp
index 5d7b03b..8c09850 100644
--- a/cpp/src/hermite/python/converters.cpp
+++ b/cpp/src/hermite/python/converters.cpp
@@ -19,6 +19,7 @@
  */
 
 #include <iostream>
+#include <stdexcept>
 
 #include <boost/python.hpp>
 #include <boost/python/numpy.hpp>
@@ -38,7 +39,7 @@ template <>
 np::ndarray to_numpy(const mat & input)
 {
     u_int n_rows = input.size();
-    u_int n_cols = input[0].size();
+    u_int n_cols = n_rows > 0 ? input[0].size() : 0;
     p::tuple shape = p::make_tuple(n_rows, n_cols);
     p::tuple stride = p::make_tuple(sizeof(double));
     np::dtype dtype = np::dtype::get_builtin<double>();
@@ -86,6 +87,11 @@ cmat to_bmat(const np::ndarray & input)
         throw WRONG_DIMENSION;
     }
 
+    if (input.get_dtype() != np::dtype::get_builtin<double>())
+    {
+        throw std::invalid_argument("The data type of the array must be double");
+    }
+
     Py_intptr_t const* shape = input.get_shape();
     Py_intptr_t const* strides = input.get_strides();
     double * data = reinterpret_cast<double*>(input.get_data());
@@ -93,16 +99,20 @@ cmat to_bmat(const np::ndarray & input)
     u_int n_rows = (u_int) shape[0];
     u_int n_cols = (u_int) shape[1];
 
-    u_int stride_cols = (u_int) strides[1] / sizeof(double);
+    Py_intptr_t stride_rows = strides[0] / (Py_intptr_t) sizeof(double);
+    Py_intptr_t stride_cols = strides[1] / (Py_intptr_t) sizeof(double);
 
-    if (stride_cols != 1)
+    if (stride_cols != 1 && n_cols > 1)
     {
         cout << "Rows of the matrix must be stored contiguously" << endl;
         throw ROWS_NOT_CONTIGUOUS;
     }
 
-    auto sizes = boost::extents[n_rows][n_cols];
-    cmat result = cmat(boost::multi_array_ref<double, 2>(data, sizes)); // copy
+    cmat result(boost::extents[n_rows][n_cols]);
+    for (u_int i = 0; i < n_rows; ++i)
+        for (u_int j = 0; j < n_cols; j++)
+            result[i][j] = data[i*stride_rows + j];
+
     return result;
 }
 
@@ -114,6 +124,11 @@ boost_mat to_boost_mat(const np::ndarray & input)
         throw WRONG_DIMENSION;
     }
 
+    if (input.get_dtype() != np::dtype::get_builtin<double>())
+    {
+        throw std::invalid_argument("The data type of the array must be double");
+    }
+
     Py_intptr_t const* shape = input.get_shape();
     Py_intptr_t const* strides = input.get_strides();
     double * data = reinterpret_cast<double*>(input.get_data());
@@ -121,9 +136,10 @@ boost_mat to_boost_mat(const np::ndarray & input)
     u_int n_rows = (u_int) shape[0];
     u_int n_cols = (u_int) shape[1];
 
-    u_int stride_cols = (u_int) strides[1] / sizeof(double);
+    Py_intptr_t stride_rows = strides[0] / (Py_intptr_t) sizeof(double);
+    Py_intptr_t stride_cols = strides[1] / (Py_intptr_t) sizeof(double);
 
-    if (stride_cols != 1)
+    if (stride_cols != 1 && n_cols > 1)
     {
         cout << "Rows of the matrix must be stored contiguously" << endl;
         throw ROWS_NOT_CONTIGUOUS;
@@ -132,7 +148,7 @@ boost_mat to_boost_mat(const np::ndarray & input)
     boost_mat result (n_rows, n_cols);
     for (u_int i = 0; i < n_rows; ++i)
         for (u_int j = 0; j < n_cols; j++)
-            result(i, j) = data[i*n_rows + j];
+            result(i, j) = data[i*stride_rows + j];
 
     return result;
 }
@@ -145,16 +161,22 @@ mat to_mat(const np::ndarray & input)
         throw WRONG_DIMENSION;
     }
 
+    if (input.get_dtype() != np::dtype::get_builtin<double>())
+    {
+        throw std::invalid_argument("The data type of the array must be double");
+    }
+
     Py_intptr_t const* shape = input.get_shape();
     Py_intptr_t const* strides = input.get_strides();
     double * data = reinterpret_cast<double*>(input.get_data());
 
     u_int n_rows = (u_int) shape[0];
+    u_int n_cols = (u_int) shape[1];
 
-    u_int stride_rows = (u_int) strides[0] / sizeof(double);
-    u_int stride_cols = (u_int) strides[1] / sizeof(double);
+    Py_intptr_t stride_rows = strides[0] / (Py_intptr_t) sizeof(double);
+    Py_intptr_t stride_cols = strides[1] / (Py_intptr_t) sizeof(double);
 
-    if (stride_cols != 1)
+    if (stride_cols != 1 && n_cols > 1)
     {
         cout << "Rows of the matrix must be stored contiguously" << endl;
         throw ROWS_NOT_CONTIGUOUS;
@@ -163,7 +185,7 @@ mat to_mat(const np::ndarray & input)
     mat result(n_rows);
     for (u_int i = 0; i < n_rows; i++)
     {
-        result[i] = vec(data + i*stride_rows, data + (i+1)*stride_rows);
+        result[i] = vec(data + i*stride_rows, data + i*stride_rows + n_cols);
     }
 
     return result;
diff --git a/cpp/src/hermite/python/module.cpp b/cpp/src/hermite/python/module.cpp
index e1369bb..13b1f6d 100644
--- a/cpp/src/hermite/python/module.cpp
+++ b/cpp/src/hermite/python/module.cpp
@@ -72,8 +72,8 @@ BOOST_PYTHON_MODULE(hermite_cpp)
 
     class_<cmat>("contiguous_mat");
     class_<boost_mat>("boost_mat")
-        .def("size1", &spmat::size1)
-        .def("size2", &spmat::size2)
+        .def("size1", &boost_mat::size1)
+        .def("size2", &boost_mat::size2)
         ;
 
     class_<spmat>("sparse_matrix")
diff --git a/cpp/src/hermite/sparse.cpp b/cpp/src/hermite/sparse.cpp
index 1ac9c7d..70ae1bc 100644
--- a/cpp/src/hermite/sparse.cpp
+++ b/cpp/src/hermite/sparse.cpp
@@ -44,10 +44,11 @@ mat row_col_val(const spmat & input)
 
 spmat to_spmat(const mat & input)
 {
-    spmat result(input.size(), input[0].size());
+    u_int n_cols = input.size() > 0 ? input[0].size() : 0;
+    spmat result(input.size(), n_cols);
     for (u_int i = 0; i < input.size(); i++)
     {
-        for (u_int j = 0; j < input[0].size(); j++)
+        for (u_int j = 0; j < n_cols; j++)
         {
             if(input[i][j] != 0)
             {
-- 
2.43.0


From c240371a68f11dde234b2034361a6b9c529ef39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:04 +0000
Subject: [PATCH 21/57] fix: varfd accepts any dense matrix

---
 hermipy/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/core.py b/hermipy/core.py
index cf52953..cce2cd8 100644
--- a/hermipy/core.py
+++ b/hermipy/core.py
@@ -187,7 +187,7 @@ def varf(degree, fgrid, nodes, weights, sparse=False,
 def varfd(dim, degree, direction, var,
           do_fourier=0, index_set="triangle"):
     if isinstance(var, np.ndarray):
-        var = hm_cpp.to_boost_mat(var)
+        var = hm_cpp.to_boost_mat(np.ascontiguousarray(var, dtype=float))
     elif isinstance(var, ss.csr_matrix):
         var = convert_to_cpp_sparse(var)
     result = log_stats()(hm_cpp.varfd)(dim, degree, direction, var,
-- 
2.43.0


From 4c34682fc925ac62a768cc818c39eae12ff8d3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:04 +0000
Subject: [PATCH 22/57] fix: evaluation of Hermite polynomials of degree 0

---
 cpp/src/hermite/hermite.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/src/hermite/hermite.cpp b/cpp/src/hermite/hermite.cpp
index ed3836e..59a72cf 100644
--- a/cpp/src/hermite/hermite.cpp
+++ b/cpp/src/hermite/hermite.cpp
@@ -32,7 +32,9 @@ void hermite_eval(double x,
 {
 
     values[0] = 1;
-    values[1] = x;
+
+    if (degree > 0)
+        values[1] = x;
 
     for (unsigned i = 1; i < degree; i++)
     {
-- 
2.43.0


From 7982e3c97c997c4a481667aee4c8fc24a6f4c844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:04 +0000
Subject: [PATCH 23/57] fix: degree of the smallest non-consistent hyperbolic
 cross

---
 cpp/src/hermite/iterators.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/src/hermite/iterators.cpp b/cpp/src/hermite/iterators.cpp
index 0e9069b..99c8741 100644
--- a/cpp/src/hermite/iterators.cpp
+++ b/cpp/src/hermite/iterators.cpp
@@ -476,8 +476,9 @@ imat Cross_iterator_nc::s_list(u_int dim, u_int degree)
 
 u_int Cross_iterator_nc::s_get_degree(u_int dim, u_int n_polys)
 {
-    auto function = [dim] (u_int degree) {return s_size(dim, degree);};
-    return pos_bissect (n_polys, function, DEGREE_BISSECT_MAX);
+    // Degrees 0 and 1 correspond to the same set
+    auto function = [dim] (u_int degree) {return s_size(dim, degree + 1);};
+    return 1 + pos_bissect (n_polys, function, DEGREE_BISSECT_MAX - 1);
 }
 
 u_int Cross_iterator_nc::s_size(u_int dim, u_int degree)
-- 
2.43.0


From 34d7abe56d1bbcad6eff10fa0e13a6ab1ab8739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:04 +0000
Subject: [PATCH 24/57] fix: compiled functions are installed atomically and
 errors are reported

---
 cpp/src/hermite/discretize.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/cpp/src/hermite/discretize.cpp b/cpp/src/hermite/discretize.cpp
index bcf2fd8..a4f500f 100644
--- a/cpp/src/hermite/discretize.cpp
+++ b/cpp/src/hermite/discretize.cpp
@@ -20,7 +20,10 @@
 
 #include <cmath>
 #include <dlfcn.h>
+#include <cstdio>
 #include <fstream>
+#include <stdexcept>
+#include <unistd.h>
 
 #include "hermite/types.hpp"
 #include "hermite/iterators.hpp"
@@ -88,11 +91,15 @@ vec discretize(
 void intern_function(string const & function_body)
 {
     string name = to_string(hash<string>()(function_body));
-    string cpp_file = "/tmp/" + name + ".cpp";
     string so_file = "/tmp/" + name + ".so";
     ifstream test_exists(so_file.c_str());
 
     if(! test_exists.good()) {
+         // Other processes see either no library or a complete one
+         string tmp_name = "/tmp/" + name + "." + to_string(getpid());
+         string cpp_file = tmp_name + ".cpp";
+         string tmp_file = tmp_name + ".so";
+
          ofstream write_function;
          write_function.open(cpp_file);
          write_function << "#define M_PI 3.14159265358979323846\n";
@@ -102,10 +109,14 @@ void intern_function(string const & function_body)
          write_function.close();
 
         // Compile file
-        string command = "c++ " + cpp_file + " -o " + so_file + " -O3 -Ofast -shared -fPIC";
+        string command = "c++ " + cpp_file + " -o " + tmp_file + " -O3 -Ofast -shared -fPIC";
         int return_value = system(command.c_str());
-        if (return_value != 0) 
-            std::cout << "Error compiling file in /tmp" << std::endl;
+        remove(cpp_file.c_str());
+        if (return_value != 0 || rename(tmp_file.c_str(), so_file.c_str()) != 0)
+        {
+            remove(tmp_file.c_str());
+            throw std::runtime_error("Error compiling function: " + function_body);
+        }
     }
 }
 
@@ -119,6 +130,8 @@ vec discretize_from_string(
     string name = to_string(hash<string>()(function_body));
     string so_file = "/tmp/" + name + ".so";
     void *function_so = dlopen(so_file.c_str(), RTLD_NOW);
+    if (function_so == nullptr)
+        throw std::runtime_error("Error loading function: " + function_body);
     s_func func = (s_func) dlsym(function_so, "toIntegrate");
     vec result = discretize(func, nodes, translation, dilation);
     dlclose(function_so);
-- 
2.43.0


From ccd08e9b158b713d3f204d617b8dcbcab14081df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:04 +0000
Subject: [PATCH 25/57] fix: invalid arguments raise an exception instead of
 ending the process

---
 cpp/src/hermite/discretize.cpp |  3 +++
 cpp/src/hermite/inner.cpp      |  6 ++++--
 cpp/src/hermite/iterators.cpp  | 15 +++++++++------
 cpp/src/hermite/iterators.hpp  |  7 ++++++-
 cpp/src/hermite/lib.cpp        |  9 +++------
 cpp/src/hermite/project.cpp    | 11 +++++++++--
 cpp/src/hermite/tensorize.cpp  | 30 ++++++++++++------------------
 cpp/src/hermite/transform.cpp  | 11 ++++++++---
 cpp/src/hermite/varf.cpp       | 15 ++++++++-------
 9 files changed, 62 insertions(+), 45 deletions(-)

diff --git a/cpp/src/hermite/discretize.cpp b/cpp/src/hermite/discretize.cpp
index a4f500f..cf092d0 100644
--- a/cpp/src/hermite/discretize.cpp
+++ b/cpp/src/hermite/discretize.cpp
@@ -58,6 +58,9 @@ vec discretize(
 {
     u_int dim = nodes.size();
 
+    if (translation.size() != dim || dilation.size() != dim)
+        throw std::invalid_argument("Translation or dilation does not match nodes");
+
     u_int i,j;
     double* node = (double*) malloc(sizeof(double)*dim);
     double* mapped_node = (double*) malloc(sizeof(double)*dim);
diff --git a/cpp/src/hermite/inner.cpp b/cpp/src/hermite/inner.cpp
index 6c48c2b..15ac50d 100644
--- a/cpp/src/hermite/inner.cpp
+++ b/cpp/src/hermite/inner.cpp
@@ -18,6 +18,7 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <stdexcept>
 #include <assert.h>
 
 #ifdef DEBUG
@@ -97,7 +98,8 @@ vec inner(const vec & s1,
     #endif
 
     u_int degree = Iterator::s_get_degree(dim1, s1.size());
-    assert( degree == Iterator::s_get_degree(dim2, s2.size()) );
+    if (degree != Iterator::s_get_degree(dim2, s2.size()))
+        throw std::invalid_argument("The series must have the same degree");
 
     #ifdef DEBUG
     std::cout << "Initializing iterators" <<  std::endl;
@@ -228,7 +230,7 @@ vec inner(const vec & s1,
     else if (index_set == "cross_nc") function = inner<Cross_iterator_nc>;
     else if (index_set == "cube") function = inner<Cube_iterator>;
     else if (index_set == "rectangle") function = inner<Rectangle_iterator>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(s1, s2, dirs1, dirs2);
 }
 
diff --git a/cpp/src/hermite/iterators.cpp b/cpp/src/hermite/iterators.cpp
index 99c8741..0793e58 100644
--- a/cpp/src/hermite/iterators.cpp
+++ b/cpp/src/hermite/iterators.cpp
@@ -19,6 +19,7 @@
  */
 
 #include <assert.h>
+#include <stdexcept>
 #include <unordered_map>
 #include "hermite/io.hpp"
 #include "hermite/lib.hpp"
@@ -314,8 +315,7 @@ u_int Triangle_iterator::s_find_dim(u_int degree, u_int n_polys)
 
     if (n_dim != n_polys)
     {
-        std::cerr << "Dimension not found, exiting..." << std::endl;
-        exit(1);
+        throw std::invalid_argument("No dimension corresponds to the number of polynomials");
     }
 
     return dim;
@@ -411,8 +411,12 @@ imat Cross_iterator::s_list(u_int dim, u_int degree)
 u_int Cross_iterator::s_get_degree(u_int dim, u_int n_polys)
 {
     Cross_iterator m(dim, DEGREE_BISSECT_MAX);
-    assert (n_polys <= m.list.size());
-    return m.list[n_polys - 1][0];
+    if (n_polys == 0 || n_polys > m.list.size())
+        throw std::invalid_argument("No degree corresponds to the number of polynomials");
+    u_int degree = m.list[n_polys - 1][0];
+    if (degree == 0 || s_size(dim, degree) != n_polys)
+        throw std::invalid_argument("No degree corresponds to the number of polynomials");
+    return degree;
 }
 
 u_int Cross_iterator::s_size(u_int dim, u_int degree)
@@ -439,8 +443,7 @@ bool Cross_iterator_nc::s_increment(ivec & multi_index, u_int degree)
         bool triangle_full = Triangle_iterator::s_increment(multi_index, degree + dim - 1);
         if (triangle_full)
         {
-            std::cout << "[Cross_iterator_nc::s_increment]: Error, triangle is full!" << std::endl;
-            exit(1);
+            throw std::logic_error("[Cross_iterator_nc::s_increment]: Error, triangle is full!");
         }
         product = 1;
         for (auto i : multi_index)
diff --git a/cpp/src/hermite/iterators.hpp b/cpp/src/hermite/iterators.hpp
index 0d49733..514337a 100644
--- a/cpp/src/hermite/iterators.hpp
+++ b/cpp/src/hermite/iterators.hpp
@@ -21,6 +21,7 @@
 #ifndef HERMITE_ITERATORS_H
 #define HERMITE_ITERATORS_H
 
+#include <stdexcept>
 #include <string>
 #include "hermite/io.hpp"
 #include "hermite/lib.hpp"
@@ -95,7 +96,11 @@ class Multi_index_iterator : public Vector_iterator
         u_int index_list;
         imat list;
 
-        Multi_index_iterator(u_int dim): Vector_iterator(dim), index_list(0) {}
+        Multi_index_iterator(u_int dim): Vector_iterator(dim), index_list(0)
+        {
+            if (dim == 0)
+                throw std::invalid_argument("The dimension must be positive");
+        }
 
     public:
         virtual ~Multi_index_iterator() = default;
diff --git a/cpp/src/hermite/lib.cpp b/cpp/src/hermite/lib.cpp
index 20ce791..eb905df 100644
--- a/cpp/src/hermite/lib.cpp
+++ b/cpp/src/hermite/lib.cpp
@@ -18,6 +18,7 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <stdexcept>
 #include "hermite/iterators.hpp"
 #include "hermite/lib.hpp"
 #include "hermite/types.hpp"
@@ -92,10 +93,7 @@ u_int pos_bissect(u_int image, std::function<u_int(u_int)> f, u_int max)
 
     if (img_1 > 0 || img_2 < 0)
     {
-        std::cout << "Can't find x, Invalid arguments!" << std::endl;
-        std::cout << "-> x1: " << x1 << ", img_1: " << f(x1) << std::endl;
-        std::cout << "-> x2: " << x2 << ", img_2: " << f(x2) << std::endl;
-        exit(0);
+        throw std::invalid_argument("No degree corresponds to the number of polynomials");
     }
 
     if (img_1 == 0)
@@ -113,8 +111,7 @@ u_int pos_bissect(u_int image, std::function<u_int(u_int)> f, u_int max)
         {
             if (new_x == x1)
             {
-                std::cout << "[lib.cpp:pos_bissect] Can't find x, infinite loop!" << std::endl;
-                exit(1);
+                throw std::invalid_argument("No degree corresponds to the number of polynomials");
             }
 
             x1 = new_x;
diff --git a/cpp/src/hermite/project.cpp b/cpp/src/hermite/project.cpp
index c382cfa..e5bf760 100644
--- a/cpp/src/hermite/project.cpp
+++ b/cpp/src/hermite/project.cpp
@@ -18,6 +18,7 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <stdexcept>
 #include <iostream>
 #include "hermite/io.hpp"
 #include "hermite/iterators.hpp"
@@ -37,6 +38,9 @@ vec project(const vec & input, u_int dim, const ivec & dirs)
 {
     u_int n_polys = input.size();
     u_int dim_sub = dirs.size();
+    for (u_int dir : dirs)
+        if (dir >= dim)
+            throw std::invalid_argument("Direction out of range");
     u_int degree = Iterator::s_get_degree(dim, n_polys);
     u_int polys_sub = Iterator::s_size(dim_sub, degree);
     vec results(polys_sub, 0.);
@@ -65,7 +69,7 @@ vec project_vec_nd(const vec & input, u_int dim, const ivec & dirs, std::string
     else if (index_set == "cross_nc") function = project<Cross_iterator_nc>;
     else if (index_set == "cube") function = project<Cube_iterator>;
     else if (index_set == "rectangle") function = project<Rectangle_iterator>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(input, dim, dirs);
 }
 
@@ -80,6 +84,9 @@ M project(const M & input, u_int dim, const ivec & dirs)
 {
     u_int n_polys = matrix::size1(input);
     u_int dim_sub = dirs.size();
+    for (u_int dir : dirs)
+        if (dir >= dim)
+            throw std::invalid_argument("Direction out of range");
     u_int degree = Iterator::s_get_degree(dim, n_polys);
     u_int polys_sub = Iterator::s_size(dim_sub, degree);
     M results = matrix::construct<M>(polys_sub, polys_sub);
@@ -117,7 +124,7 @@ M project_mat_nd(const M & input, u_int dim, const ivec & dirs, std::string cons
     else if (index_set == "cross_nc") function = project<Cross_iterator_nc,M>;
     else if (index_set == "cube") function = project<Cube_iterator,M>;
     else if (index_set == "rectangle") function = project<Rectangle_iterator,M>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(input, dim, dirs);
 }
 
diff --git a/cpp/src/hermite/tensorize.cpp b/cpp/src/hermite/tensorize.cpp
index 5b65a1a..f252aee 100644
--- a/cpp/src/hermite/tensorize.cpp
+++ b/cpp/src/hermite/tensorize.cpp
@@ -18,6 +18,7 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <stdexcept>
 #include <iostream>
 #include <assert.h>
 
@@ -45,10 +46,9 @@ void check_dims(const imat & dirs, u_int dim)
         for (u_int j = 0; j < dirs[i].size(); j++)
         {
             u_int dir = dirs[i][j];
-            if (dirs_present[dir])
+            if (dir >= dim || dirs_present[dir])
             {
-                cout << "The same direction appears twice, exiting ..." << endl;
-                exit(1);
+                throw std::invalid_argument("Direction out of range or appearing twice");
             }
             else
             {
@@ -61,8 +61,7 @@ void check_dims(const imat & dirs, u_int dim)
     {
         if (!dirs_present[i])
         {
-            cout << "Missing direction, exiting ..." << endl;
-            exit(1);
+            throw std::invalid_argument("Missing direction");
         }
     }
 }
@@ -73,10 +72,7 @@ void check_degree(u_int size, u_int dim, u_int degree)
     u_int n_polys = Iterator::s_size(dim, degree);
     if (n_polys != size)
     {
-        cout << "Size of input does not match dimension!" << endl;
-        cout << "Expected dimension: " << n_polys << endl;
-        cout << "Actual dimension: " << size << endl;
-        exit(1);
+        throw std::invalid_argument("Size of input does not match dimension");
     }
 }
 
@@ -99,11 +95,9 @@ vec tensorize(const mat & inputs, const imat & dirs)
     for (u_int i = 0; i < dirs.size(); i++)
         it_mul.push_back(Iterator(dims[i], degree));
 
-    #ifdef DEBUG
     check_dims(dirs, dim);
     for (u_int i = 0; i < dirs.size(); i++)
         check_degree<Iterator>(inputs[i].size(), dims[i], degree);
-    #endif
 
     u_int n_polys = Iterator::s_size(dim, degree);
     vec results(n_polys, 0.);
@@ -129,7 +123,7 @@ vec tensorize_vecs_dirs(const mat & inputs, const imat & dirs, std::string const
     else if (index_set == "cross_nc") function = tensorize<Cross_iterator_nc>;
     else if (index_set == "cube") function = tensorize<Cube_iterator>;
     else if (index_set == "rectangle") function = tensorize<Rectangle_iterator>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(inputs, dirs);
 }
 
@@ -147,6 +141,8 @@ vec tensorize_vec_id(const vec & input, u_int dim, u_int dir, std::string const
     u_int degree = input.size() - 1;
     vec cst(degree + 1, 0.); cst[0] = 1;
     mat vecs(dim, cst);
+    if (dir >= dim)
+        throw std::invalid_argument("Direction out of range");
     vecs[dir] = input;
     return tensorize_vecs_axes(vecs, index_set);
 }
@@ -306,13 +302,9 @@ T _tensorize_mats_dirs(const vector<S> & inputs, const imat & dirs)
     for (u_int i = 0; i < inputs.size(); i++)
         sp_inputs[i] = matrix::convert<spmat>(inputs[i]);
 
-    #ifdef DEBUG
-    check_dims(dirs, dim);
-
     u_int degree = Iterator::s_get_degree(dims[0], matrix::size1(inputs[0]));
     for (u_int i = 1; i < inputs.size(); i++)
         check_degree<Iterator>(matrix::size1(inputs[i]), dims[i], degree);
-    #endif
 
     spmat result = sp_inputs[0];
     ivec d = dirs[0], d_old, _a1, _a2;
@@ -353,7 +345,7 @@ T tensorize_mats_dirs(const vector<S> & inputs, const imat & dirs, std::string c
     else if (index_set == "cross_nc") function = _tensorize_mats_dirs<Cross_iterator_nc,T,S>;
     else if (index_set == "cube") function = _tensorize_mats_dirs<Cube_iterator,T,S>;
     else if (index_set == "rectangle") function = _tensorize_mats_dirs<Rectangle_iterator,T,S>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(inputs, dirs);
 }
 
@@ -366,7 +358,7 @@ T tensorize_mats_axes(const vector<S> & inputs, std::string const & index_set)
     else if (index_set == "cross_nc") function = _tensorize_mats_axes<Cross_iterator_nc,T,S>;
     else if (index_set == "cube") function = _tensorize_mats_axes<Cube_iterator,T,S>;
     else if (index_set == "rectangle") function = _tensorize_mats_axes<Rectangle_iterator,T,S>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(inputs);
 }
 
@@ -376,6 +368,8 @@ T tensorize_mat_id(const S & input, u_int dim, u_int dir, std::string const & in
     u_int degree = matrix::size1(input) - 1;
     T eye = matrix::eye<T>(degree + 1);
     vector<T> mats(dim, eye);
+    if (dir >= dim)
+        throw std::invalid_argument("Direction out of range");
     mats[dir] = matrix::convert<T>(input);
     return tensorize_mats_axes<T>(mats, index_set);
 }
diff --git a/cpp/src/hermite/transform.cpp b/cpp/src/hermite/transform.cpp
index 2e3677a..b70d707 100644
--- a/cpp/src/hermite/transform.cpp
+++ b/cpp/src/hermite/transform.cpp
@@ -18,6 +18,7 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <stdexcept>
 #include <cmath>
 #include <functional>
 #include <numeric>
@@ -63,6 +64,11 @@ vec _transform(
         n_points_tot *= n_points[i];
     }
 
+    if (input.size() != (forward ? n_points_tot : n_polys))
+    {
+        throw std::invalid_argument("Size of input does not match nodes or degree");
+    }
+
     vec output;
     if (forward)
     {
@@ -91,8 +97,7 @@ vec _transform(
             {
                 if (degree % 2 == 1)
                 {
-                    std::cout << "Use even degree for Fourier." << std::endl;
-                    exit(1);
+                    throw std::invalid_argument("Use even degree for Fourier.");
                 }
 
                 // Maximal wave number
@@ -163,7 +168,7 @@ vec transform(
     else if (index_set == "cross_nc") function = _transform<Cross_iterator_nc>;
     else if (index_set == "cube") function = _transform<Cube_iterator>;
     else if (index_set == "rectangle") function = _transform<Rectangle_iterator>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(degree, input, nodes, weights, do_fourier, forward);
 }
 
diff --git a/cpp/src/hermite/varf.cpp b/cpp/src/hermite/varf.cpp
index b50b821..e2d68d6 100644
--- a/cpp/src/hermite/varf.cpp
+++ b/cpp/src/hermite/varf.cpp
@@ -18,6 +18,7 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <stdexcept>
 #include <cmath>
 
 #include <iostream>
@@ -102,8 +103,7 @@ cube triple_products_fourier(int degree)
 
     if (degree % 2 == 1)
     {
-        std::cout << "Use even degree for Fourier" << std::endl;
-        exit(1);
+        throw std::invalid_argument("Use even degree for Fourier.");
     }
 
     // Maximal wave number
@@ -283,7 +283,7 @@ T varf(
     else if (index_set == "cross_nc") function = varf<Cross_iterator_nc,T>;
     else if (index_set == "cube") function = varf<Cube_iterator,T>;
     else if (index_set == "rectangle") function = varf<Rectangle_iterator,T>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(degree, input, nodes, weights, do_fourier);
 }
 
@@ -328,10 +328,12 @@ T varfd(
     }
     else
     {
-        std::cerr << "Invalid index set!" << std::endl;
-        exit(1);
+        throw std::invalid_argument("Invalid index set!");
     }
 
+    if (direction >= dim || var.size1() != m->size() || var.size2() != m->size())
+        throw std::invalid_argument("Direction or size of matrix does not match dimension");
+
     u_int i;
     imat multi_indices;
     for (i = 0, m->reset(); i < var.size1(); i++, m->increment())
@@ -412,8 +414,7 @@ mat varfd(
     }
     else
     {
-        std::cerr << "Invalid index set!" << std::endl;
-        exit(1);
+        throw std::invalid_argument("Invalid index set!");
     }
     m2->reset();
 
-- 
2.43.0


From 6a9ad8c393d33b726ef5d4099ba3a20cea1077c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:45 +0000
Subject: [PATCH 26/57] fix: a hyperbolic cross of degree 0 is an invalid
 argument

---
 cpp/src/hermite/iterators.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cpp/src/hermite/iterators.cpp b/cpp/src/hermite/iterators.cpp
index 0793e58..9f563c3 100644
--- a/cpp/src/hermite/iterators.cpp
+++ b/cpp/src/hermite/iterators.cpp
@@ -382,6 +382,9 @@ bool Cross_iterator::s_increment(ivec & multi_index, u_int degree)
 Cross_iterator::Cross_iterator(u_int dim, u_int degree)
     : Multi_index_iterator(dim), degree(degree)
 {
+    if (degree == 0)
+        throw std::invalid_argument("The degree of a cross must be positive");
+
     #ifdef DEBUG
     std::cout << "Creating cross iterator with dim = "
               << dim << ", degree = " << degree << std::endl;
@@ -456,6 +459,9 @@ bool Cross_iterator_nc::s_increment(ivec & multi_index, u_int degree)
 Cross_iterator_nc::Cross_iterator_nc(u_int dim, u_int degree)
     : Multi_index_iterator(dim), degree(degree)
 {
+    if (degree == 0)
+        throw std::invalid_argument("The degree of a cross must be positive");
+
     ivec m(dim, 0);
     u_int ind = 0;
     do
-- 
2.43.0


From 1e0c07d6687de6a57eed3f3a1f1f91ea653584a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:59 +0000
Subject: [PATCH 27/57] fix: transform, varfd, discretize_op and project of
 composite quadratures

---
 hermipy/compquad.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/hermipy/compquad.py b/hermipy/compquad.py
index c1624d4..b7d61aa 100644
--- a/hermipy/compquad.py
+++ b/hermipy/compquad.py
@@ -51,7 +51,8 @@ class CompQuad():
         if len(self.quads) != len(other.quads):
             return False
 
-        return all(q1 == q2 for q1, q2 in zip(self.quads, other.quads))
+        return all(q1 == q2 for q1, q2 in zip(self.quads, other.quads)) \
+            and list(self.qweights) == list(other.qweights)
 
     def integrate(self, f):
         result = 0
@@ -60,11 +61,11 @@ class CompQuad():
         return result
 
     def transform(self, f_grid, degree, index_set="triangle"):
-        result = 0
+        result = []
         for i, q in enumerate(self.quads):
             series = q.transform(f_grid, degree, index_set=index_set)
-            result += series * self.qweights[i]
-        return result
+            result.append(series * self.qweights[i])
+        return sum(result[1:], result[0])
 
     def varf(self, f_grid, degree, sparse=None, index_set="triangle"):
         result = 0
@@ -75,15 +76,22 @@ class CompQuad():
 
     def varfd(self, function, degree, directions, sparse=None,
               index_set="triangle"):
-        return quad.Quad.varfd(self, function, degree, directions,
-                               sparse=sparse, index_set=index_set)
+        result = 0
+        for i, q in enumerate(self.quads):
+            varfd = q.varfd(function, degree, directions,
+                            sparse=sparse, index_set=index_set)
+            result += varfd * self.qweights[i]
+        return result
 
-    def discretize_op(self, op, func, degree, order,
-                      sparse=None, index_set="triangle"):
-        return quad.Quad.discretize_op(self, op, func, degree, order,
-                                       sparse=sparse, index_set = index_set)
+    def discretize_op(self, op, degree, sparse=None, index_set="triangle"):
+        result = 0
+        for i, q in enumerate(self.quads):
+            varf = q.discretize_op(op, degree,
+                                   sparse=sparse, index_set=index_set)
+            result += varf * self.qweights[i]
+        return result
 
-    def project(self, projection):
+    def project(self, directions):
         new_quads = [q.project(directions) for q in self.quads]
         return CompQuad(new_quads, self.qweights)
 
-- 
2.43.0


From 7404437cfef6f4ae7dc00c3d2893eecb77f387dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:17 +0000
Subject: [PATCH 28/57] fix: only series and matrices of the same degree can be
 added

---
 hermipy/series.py | 1 +
 hermipy/varf.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/hermipy/series.py b/hermipy/series.py
index 1f24642..c554c7e 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -120,6 +120,7 @@ does not match number of multi-indices!")
         elif isinstance(other, Series):
             if not self.position == other.position or \
                not self.index_set == other.index_set or \
+               not self.degree == other.degree or \
                not self.factor == other.factor:
                 raise ValueError("Invalid argument!")
             new_coeffs = self.coeffs + other.coeffs
diff --git a/hermipy/varf.py b/hermipy/varf.py
index 4abb846..34777cf 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -90,6 +90,7 @@ class Varf:
         elif isinstance(other, Varf):
             if not self.position == other.position or \
                not self.index_set == other.index_set or \
+               not self.degree == other.degree or \
                not self.factor == other.factor:
                 raise ValueError("Invalid argument!")
             new_matrix = self.matrix + other.matrix
-- 
2.43.0


From 8ddc9cf60235b97e851784b9171f0197f79e3058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:17 +0000
Subject: [PATCH 29/57] fix: only matrices in disjoint directions can be
 tensorized

---
 hermipy/varf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index 34777cf..d5170be 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -55,6 +55,8 @@ class Varf:
                not a.degree == degree:
                 raise ValueError("Invalid argument(s)")
             key = frozenset(a.position.dirs)
+            if any(key & other for other in mats):
+                raise ValueError("Directions must be disjoint!")
             mats[key] = a.matrix
             factor *= a.factor.sym
 
-- 
2.43.0


From eec51f3763942d82ce2e78f318f36324c32b6cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:17 +0000
Subject: [PATCH 30/57] fix: a matrix is applied only to series with the same
 factor

---
 hermipy/varf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index d5170be..f95d27c 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -128,9 +128,10 @@ class Varf:
         return self * (-1)
 
     def __call__(self, series):
-        if not self.position == series.position or \
-           not self.index_set == series.index_set or \
-           not isinstance(series, hs.Series):
+        if not isinstance(series, hs.Series) or \
+           not self.position == series.position or \
+           not self.factor == series.factor or \
+           not self.index_set == series.index_set:
             raise ValueError("Invalid argument!")
         coeffs = self.matrix.dot(series.coeffs)
         return hs.Series(coeffs, self.position,
@@ -180,9 +181,10 @@ class Varf:
               preconditioner=None, quiet=False, **kwargs):
 
         if not self.position == series.position or \
+           not self.factor == series.factor or \
            not self.index_set == series.index_set:
             raise ValueError("Invalid argument: \
-                              position and index set must coincide!")
+                              position, factor and index set must coincide!")
 
         if remove0 or remove_vec is not None:
             vstack, hstack = (np.vstack, np.hstack) if not self.is_sparse \
-- 
2.43.0


From 8f752130679d04efa318851f7269da0b0eeeaa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:42 +0000
Subject: [PATCH 31/57] fix: equality of positions without directions

---
 hermipy/position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index 4ed4bd4..ec89a9b 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -116,7 +116,7 @@ class Position:
     def __eq__(self, other):
         return self.dirs == other.dirs \
             and la.norm(self.mean - other.mean, 2) < self.very_small \
-            and la.norm(self.cov - other.cov, 2) < self.very_small \
+            and la.norm(self.cov - other.cov) < self.very_small \
             and self.types == other.types
 
     def __mul__(self, other):
-- 
2.43.0


From c34a6238d0ba43a9f380940370c02044facfabbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:42 +0000
Subject: [PATCH 32/57] fix: equality of series and matrices compares degree,
 index set and factor

---
 hermipy/series.py | 2 ++
 hermipy/varf.py   | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/hermipy/series.py b/hermipy/series.py
index c554c7e..bc6ee01 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -110,6 +110,8 @@ does not match number of multi-indices!")
             raise ValueError("Invalid argument!")
         return self.position == other.position \
             and self.factor == other.factor \
+            and self.index_set == other.index_set \
+            and self.degree == other.degree \
             and la.norm(self.coeffs - other.coeffs) < very_small
 
     def __add__(self, other):
diff --git a/hermipy/varf.py b/hermipy/varf.py
index f95d27c..c2219a3 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -82,6 +82,9 @@ class Varf:
             raise ValueError("Invalid argument!")
         norm_func = spla.norm if self.is_sparse and other.is_sparse else la.norm
         return self.position == other.position \
+            and self.factor == other.factor \
+            and self.index_set == other.index_set \
+            and self.degree == other.degree \
             and norm_func(self.matrix - other.matrix) < very_small
 
     def __add__(self, other):
-- 
2.43.0


From bbf76f3a2673b38d1c88583930c3863f09d1f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:26 +0000
Subject: [PATCH 33/57] fix: the sum of a dense and a sparse matrix is an array

---
 hermipy/varf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index c2219a3..710018b 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -99,6 +99,9 @@ class Varf:
                not self.factor == other.factor:
                 raise ValueError("Invalid argument!")
             new_matrix = self.matrix + other.matrix
+            if isinstance(new_matrix, np.matrix):
+                # Sum of a dense and a sparse matrix
+                new_matrix = np.asarray(new_matrix)
 
         else:
             raise TypeError("Invalid type!)")
-- 
2.43.0


From dd5d7193845ef4cc3e07ba82ccb4a2cb24292ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:18 +0000
Subject: [PATCH 34/57] fix: operators with unevaluated derivatives of products
 are split correctly

---
 hermipy/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/operator.py b/hermipy/operator.py
index 40218d4..bb48c37 100644
--- a/hermipy/operator.py
+++ b/hermipy/operator.py
@@ -119,7 +119,7 @@ class Operator():
         MAX_ORDER = 5
         variables = [func.Function.x_sub[d] for d in self.dirs]
         unknown, dim = self.f(*variables), len(variables)
-        result, rem = {}, self.sym.expand()
+        result, rem = {}, self.sym.doit().expand()
         mult = list(m for m in itertools.product(range(MAX_ORDER + 1),
                     repeat=dim) if sum(m) <= MAX_ORDER)
         for m in mult:
-- 
2.43.0


From 6608ec36788379d34134ca898c1c8d0434c572d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:44 +0000
Subject: [PATCH 35/57] fix: duplicate entries of a sparse matrix are summed
 when it is converted

---
 cpp/src/hermite/sparse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/src/hermite/sparse.cpp b/cpp/src/hermite/sparse.cpp
index 70ae1bc..ea0d275 100644
--- a/cpp/src/hermite/sparse.cpp
+++ b/cpp/src/hermite/sparse.cpp
@@ -80,7 +80,7 @@ spmat to_spmat(const vec & data, const ivec & indices, const ivec & indptr,
     {
         for (u_int j = indptr[i]; j < indptr[i+1]; j++)
         {
-            result(i, indices[j]) = data[j];
+            result(i, indices[j]) += data[j];
         }
     }
     return result;
-- 
2.43.0


From 340d9f90cf0751e4d29b9bc7f7daf295907af65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:18 +0000
Subject: [PATCH 36/57] fix: arrays with strides that are not multiples of a
 double are refused

---
 cpp/src/hermite/python/converters.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/src/hermite/python/converters.cpp b/cpp/src/hermite/python/converters.cpp
index 8c09850..242bd32 100644
--- a/cpp/src/hermite/python/converters.cpp
+++ b/cpp/src/hermite/python/converters.cpp
@@ -100,9 +100,9 @@ cmat to_bmat(const np::ndarray & input)
     u_int n_cols = (u_int) shape[1];
 
     Py_intptr_t stride_rows = strides[0] / (Py_intptr_t) sizeof(double);
-    Py_intptr_t stride_cols = strides[1] / (Py_intptr_t) sizeof(double);
 
-    if (stride_cols != 1 && n_cols > 1)
+    if ((strides[1] != (Py_intptr_t) sizeof(double) && n_cols > 1)
+        || (strides[0] % (Py_intptr_t) sizeof(double) != 0 && n_rows > 1))
     {
         cout << "Rows of the matrix must be stored contiguously" << endl;
         throw ROWS_NOT_CONTIGUOUS;
@@ -137,9 +137,9 @@ boost_mat to_boost_mat(const np::ndarray & input)
     u_int n_cols = (u_int) shape[1];
 
     Py_intptr_t stride_rows = strides[0] / (Py_intptr_t) sizeof(double);
-    Py_intptr_t stride_cols = strides[1] / (Py_intptr_t) sizeof(double);
 
-    if (stride_cols != 1 && n_cols > 1)
+    if ((strides[1] != (Py_intptr_t) sizeof(double) && n_cols > 1)
+        || (strides[0] % (Py_intptr_t) sizeof(double) != 0 && n_rows > 1))
     {
         cout << "Rows of the matrix must be stored contiguously" << endl;
         throw ROWS_NOT_CONTIGUOUS;
@@ -174,9 +174,9 @@ mat to_mat(const np::ndarray & input)
     u_int n_cols = (u_int) shape[1];
 
     Py_intptr_t stride_rows = strides[0] / (Py_intptr_t) sizeof(double);
-    Py_intptr_t stride_cols = strides[1] / (Py_intptr_t) sizeof(double);
 
-    if (stride_cols != 1 && n_cols > 1)
+    if ((strides[1] != (Py_intptr_t) sizeof(double) && n_cols > 1)
+        || (strides[0] % (Py_intptr_t) sizeof(double) != 0 && n_rows > 1))
     {
         cout << "Rows of the matrix must be stored contiguously" << endl;
         throw ROWS_NOT_CONTIGUOUS;
-- 
2.43.0


From 854ba98fec0acebf24e384a16a8713b6708d8792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:01 +0000
Subject: [PATCH 37/57] fix: matrices with rows of different lengths are not
 converted to arrays

---
 cpp/src/hermite/python/converters.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/src/hermite/python/converters.cpp b/cpp/src/hermite/python/converters.cpp
index 242bd32..6f5c200 100644
--- a/cpp/src/hermite/python/converters.cpp
+++ b/cpp/src/hermite/python/converters.cpp
@@ -48,6 +48,10 @@ np::ndarray to_numpy(const mat & input)
 
     for (u_int i = 0; i < n_rows; i++)
     {
+        if (input[i].size() != n_cols)
+        {
+            throw std::invalid_argument("The rows of the matrix must have the same length");
+        }
         shape = p::make_tuple(n_cols);
         converted[i] = np::from_data(input[i].data(), dtype, shape, stride, own);
     }
-- 
2.43.0


From 5cc4bc2027bf79d799b736d185bb44ceedcb8fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:50 +0000
Subject: [PATCH 38/57] fix: arrays that are not aligned are converted without
 unaligned accesses

---
 cpp/src/hermite/python/converters.cpp | 30 +++++++++++----------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/cpp/src/hermite/python/converters.cpp b/cpp/src/hermite/python/converters.cpp
index 6f5c200..9d5b45f 100644
--- a/cpp/src/hermite/python/converters.cpp
+++ b/cpp/src/hermite/python/converters.cpp
@@ -18,6 +18,7 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <cstring>
 #include <iostream>
 #include <stdexcept>
 
@@ -98,15 +99,12 @@ cmat to_bmat(const np::ndarray & input)
 
     Py_intptr_t const* shape = input.get_shape();
     Py_intptr_t const* strides = input.get_strides();
-    double * data = reinterpret_cast<double*>(input.get_data());
+    const char * data = input.get_data();
 
     u_int n_rows = (u_int) shape[0];
     u_int n_cols = (u_int) shape[1];
 
-    Py_intptr_t stride_rows = strides[0] / (Py_intptr_t) sizeof(double);
-
-    if ((strides[1] != (Py_intptr_t) sizeof(double) && n_cols > 1)
-        || (strides[0] % (Py_intptr_t) sizeof(double) != 0 && n_rows > 1))
+    if (strides[1] != (Py_intptr_t) sizeof(double) && n_cols > 1)
     {
         cout << "Rows of the matrix must be stored contiguously" << endl;
         throw ROWS_NOT_CONTIGUOUS;
@@ -115,7 +113,7 @@ cmat to_bmat(const np::ndarray & input)
     cmat result(boost::extents[n_rows][n_cols]);
     for (u_int i = 0; i < n_rows; ++i)
         for (u_int j = 0; j < n_cols; j++)
-            result[i][j] = data[i*stride_rows + j];
+            memcpy(&result[i][j], data + i*strides[0] + j*sizeof(double), sizeof(double));
 
     return result;
 }
@@ -135,15 +133,12 @@ boost_mat to_boost_mat(const np::ndarray & input)
 
     Py_intptr_t const* shape = input.get_shape();
     Py_intptr_t const* strides = input.get_strides();
-    double * data = reinterpret_cast<double*>(input.get_data());
+    const char * data = input.get_data();
 
     u_int n_rows = (u_int) shape[0];
     u_int n_cols = (u_int) shape[1];
 
-    Py_intptr_t stride_rows = strides[0] / (Py_intptr_t) sizeof(double);
-
-    if ((strides[1] != (Py_intptr_t) sizeof(double) && n_cols > 1)
-        || (strides[0] % (Py_intptr_t) sizeof(double) != 0 && n_rows > 1))
+    if (strides[1] != (Py_intptr_t) sizeof(double) && n_cols > 1)
     {
         cout << "Rows of the matrix must be stored contiguously" << endl;
         throw ROWS_NOT_CONTIGUOUS;
@@ -152,7 +147,7 @@ boost_mat to_boost_mat(const np::ndarray & input)
     boost_mat result (n_rows, n_cols);
     for (u_int i = 0; i < n_rows; ++i)
         for (u_int j = 0; j < n_cols; j++)
-            result(i, j) = data[i*stride_rows + j];
+            memcpy(&result(i, j), data + i*strides[0] + j*sizeof(double), sizeof(double));
 
     return result;
 }
@@ -172,15 +167,12 @@ mat to_mat(const np::ndarray & input)
 
     Py_intptr_t const* shape = input.get_shape();
     Py_intptr_t const* strides = input.get_strides();
-    double * data = reinterpret_cast<double*>(input.get_data());
+    const char * data = input.get_data();
 
     u_int n_rows = (u_int) shape[0];
     u_int n_cols = (u_int) shape[1];
 
-    Py_intptr_t stride_rows = strides[0] / (Py_intptr_t) sizeof(double);
-
-    if ((strides[1] != (Py_intptr_t) sizeof(double) && n_cols > 1)
-        || (strides[0] % (Py_intptr_t) sizeof(double) != 0 && n_rows > 1))
+    if (strides[1] != (Py_intptr_t) sizeof(double) && n_cols > 1)
     {
         cout << "Rows of the matrix must be stored contiguously" << endl;
         throw ROWS_NOT_CONTIGUOUS;
@@ -189,7 +181,9 @@ mat to_mat(const np::ndarray & input)
     mat result(n_rows);
     for (u_int i = 0; i < n_rows; i++)
     {
-        result[i] = vec(data + i*stride_rows, data + i*stride_rows + n_cols);
+        result[i] = vec(n_cols);
+        if (n_cols > 0)
+            memcpy(result[i].data(), data + i*strides[0], n_cols*sizeof(double));
     }
 
     return result;
-- 
2.43.0


From 85255b33d869235c80cd8705e258dd7cdc7ea94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:33 +0000
Subject: [PATCH 39/57] fix: refuse weights that do not match the nodes

---
 cpp/src/hermite/transform.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cpp/src/hermite/transform.cpp b/cpp/src/hermite/transform.cpp
index b70d707..24f49be 100644
--- a/cpp/src/hermite/transform.cpp
+++ b/cpp/src/hermite/transform.cpp
@@ -56,12 +56,18 @@ vec _transform(
 
     u_int i,j,k;
 
+    if (weights.size() != dim || do_fourier.size() != dim)
+        throw std::invalid_argument("Weights or types do not match nodes");
+
     u_int n_points_tot = 1;
     ivec n_points(dim);
     for (i = 0; i < dim; i++)
     {
         n_points[i] = nodes[i].size();
         n_points_tot *= n_points[i];
+
+        if (weights[i].size() != n_points[i])
+            throw std::invalid_argument("Weights do not match nodes");
     }
 
     if (input.size() != (forward ? n_points_tot : n_polys))
-- 
2.43.0


From 8e4e0100a3628d8bbdfcdb4864bde1f7a9318794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:33 +0000
Subject: [PATCH 40/57] fix: refuse a dilation matrix with incomplete rows

---
 cpp/src/hermite/discretize.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/src/hermite/discretize.cpp b/cpp/src/hermite/discretize.cpp
index cf092d0..cb4dc03 100644
--- a/cpp/src/hermite/discretize.cpp
+++ b/cpp/src/hermite/discretize.cpp
@@ -61,6 +61,10 @@ vec discretize(
     if (translation.size() != dim || dilation.size() != dim)
         throw std::invalid_argument("Translation or dilation does not match nodes");
 
+    for (auto const & row : dilation)
+        if (row.size() != dim)
+            throw std::invalid_argument("Translation or dilation does not match nodes");
+
     u_int i,j;
     double* node = (double*) malloc(sizeof(double)*dim);
     double* mapped_node = (double*) malloc(sizeof(double)*dim);
-- 
2.43.0


From 0129d563f0db5757705407a8bf1396ca65e381f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:33 +0000
Subject: [PATCH 41/57] fix: refuse to project a position on a repeated
 direction

---
 hermipy/position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index ec89a9b..b3648b3 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -151,7 +151,7 @@ class Position:
     def project(self, directions):
         if isinstance(directions, int):
             directions = [directions]
-        if not self.is_diag or not directions == sorted(directions):
+        if not self.is_diag or not directions == sorted(set(directions)):
             raise ValueError("Invalid argument!")
         dirs, dim = directions, len(directions)
         mean, cov, types = np.zeros(dim), np.zeros((dim, dim)), [""]*dim
-- 
2.43.0


From 4fd9c87000995e479b290832fd83e8f4fb2b08f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:33 +0000
Subject: [PATCH 42/57] fix: evaluate a series in its own basis and directions

---
 hermipy/quad.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 9cf3eb3..89ea701 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -309,7 +309,11 @@ class Quad:
         if isinstance(series, np.ndarray):
             series = hm.Series(series, self.position, factor=self.factor)
 
+        if not self.position.dirs == series.position.dirs:
+            raise ValueError("Invalid argument: directions don't match")
+
         degree, coeffs = series.degree, series.coeffs
+        do_fourier = [int(t == "fourier") for t in series.position.types]
 
         inv = la.inv(series.position.factor)
         translation = inv.dot(self.position.mean - series.position.mean)
@@ -321,7 +325,7 @@ class Quad:
             mapped_nodes[i] = n * factor[i][i] + translation[i]
 
         result = core.transform(degree, coeffs, mapped_nodes, self.weights,
-                                forward=False, do_fourier=self.do_fourier,
+                                forward=False, do_fourier=do_fourier,
                                 index_set=series.index_set)
 
         return result*self.discretize(series.factor)
-- 
2.43.0


From 06b64e197de1bad1190ad0443c24f0f87dda29a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:08 +0000
Subject: [PATCH 43/57] fix: refuse to differentiate in a direction that the
 quadrature does not have

---
 hermipy/quad.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 89ea701..9bc288e 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -344,11 +344,18 @@ class Quad:
         return hm.Varf(var, self.position,
                        factor=self.factor, index_set=index_set)
 
+    def varfd(self, function, degree, directions,
+              sparse=None, index_set="triangle", tensorize=None):
+        if not set(directions) <= set(self.position.dirs):
+            raise ValueError("Invalid argument: directions don't match")
+        return self._varfd(function, degree, directions, sparse=sparse,
+                           index_set=index_set, tensorize=tensorize)
+
     @tensorize_at(1)
     @stats.debug()
     @stats.log_stats()
-    def varfd(self, function, degree, directions,
-              sparse=None, index_set="triangle", tensorize=None):
+    def _varfd(self, function, degree, directions,
+               sparse=None, index_set="triangle", tensorize=None):
         directions = filter(lambda d: d in self.position.dirs, directions)
         sparse = hm.settings['sparse'] if sparse is None else sparse
         var = self.varf(function, degree, sparse=sparse,
-- 
2.43.0


From 3672ce7faf686f812271ecfdaefd2005c7e3706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:49 +0000
Subject: [PATCH 44/57] fix: refuse matrices that are not square

---
 cpp/src/hermite/project.cpp   | 2 ++
 cpp/src/hermite/tensorize.cpp | 4 ++++
 hermipy/varf.py               | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/cpp/src/hermite/project.cpp b/cpp/src/hermite/project.cpp
index e5bf760..05c85f4 100644
--- a/cpp/src/hermite/project.cpp
+++ b/cpp/src/hermite/project.cpp
@@ -84,6 +84,8 @@ M project(const M & input, u_int dim, const ivec & dirs)
 {
     u_int n_polys = matrix::size1(input);
     u_int dim_sub = dirs.size();
+    if (matrix::size2(input) != n_polys)
+        throw std::invalid_argument("Matrix is not square");
     for (u_int dir : dirs)
         if (dir >= dim)
             throw std::invalid_argument("Direction out of range");
diff --git a/cpp/src/hermite/tensorize.cpp b/cpp/src/hermite/tensorize.cpp
index f252aee..8d857c4 100644
--- a/cpp/src/hermite/tensorize.cpp
+++ b/cpp/src/hermite/tensorize.cpp
@@ -300,7 +300,11 @@ T _tensorize_mats_dirs(const vector<S> & inputs, const imat & dirs)
     #endif
     vector<spmat> sp_inputs(inputs.size());
     for (u_int i = 0; i < inputs.size(); i++)
+    {
+        if (matrix::size1(inputs[i]) != matrix::size2(inputs[i]))
+            throw std::invalid_argument("Matrix is not square");
         sp_inputs[i] = matrix::convert<spmat>(inputs[i]);
+    }
 
     u_int degree = Iterator::s_get_degree(dims[0], matrix::size1(inputs[0]));
     for (u_int i = 1; i < inputs.size(); i++)
diff --git a/hermipy/varf.py b/hermipy/varf.py
index 710018b..a3c2291 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -71,6 +71,9 @@ class Varf:
         self.position = position
         self.index_set = index_set
 
+        if self.matrix.shape[0] != self.matrix.shape[1]:
+            raise ValueError("Invalid argument: matrix must be square")
+
         dim, npolys = self.position.dim, self.matrix.shape[0]
         self.degree = core.iterator_get_degree(dim, npolys,
                                                index_set=index_set)
-- 
2.43.0


From 82590ad1847ee8fc13fd41d5d7f7f648b45be432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:08 +0000
Subject: [PATCH 45/57] fix: rounding the coefficients of a series does not
 modify the argument

---
 hermipy/series.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermipy/series.py b/hermipy/series.py
index bc6ee01..f471aaf 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -97,8 +97,8 @@ class Series:
 does not match number of multi-indices!")
 
         if significant != 0:
-            for i, c in enumerate(self.coeffs):
-                self.coeffs[i] = round(c, significant)
+            self.coeffs = np.array([round(c, significant)
+                                    for c in self.coeffs])
 
         self.factor = func.Function(factor, dirs=self.position.dirs)
 
-- 
2.43.0


From be46102265665b5744415f1359563e35352f14ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:08 +0000
Subject: [PATCH 46/57] fix: coefficients are rounded after tensorization, not
 before

---
 hermipy/quad.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 9bc288e..ed5dfcb 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -283,11 +283,23 @@ class Quad:
         elif n == 1:
             return self.integrate(abs(function), flat=flat)
 
+    def transform(self, function, degree, index_set="triangle",
+                  significant=0, tensorize=None):
+        series = self._transform(function, degree, index_set=index_set,
+                                 tensorize=tensorize)
+        if significant == 0:
+            return series
+
+        # The coefficients are rounded once, after tensorization
+        return hm.Series(series.coeffs, series.position,
+                         factor=series.factor, index_set=index_set,
+                         significant=significant)
+
     @tensorize_at(1)
     @stats.debug()
     @stats.log_stats()
-    def transform(self, function, degree, index_set="triangle",
-                  significant=0, tensorize=None):
+    def _transform(self, function, degree, index_set="triangle",
+                   tensorize=None):
 
         if not isinstance(function, np.ndarray):
             function = hm.Function(function, dirs=self.position.dirs)
@@ -301,8 +313,7 @@ class Quad:
                                 index_set=index_set)
 
         return hm.Series(coeffs, self.position,
-                         factor=self.factor, index_set=index_set,
-                         significant=significant)
+                         factor=self.factor, index_set=index_set)
 
     def eval(self, series):
 
-- 
2.43.0


From 0660df5c39f6a8b6f40df4cee0f3f492847cff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:08 +0000
Subject: [PATCH 47/57] fix: norms other than 1 and 2 are refused

---
 hermipy/quad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index ed5dfcb..a453fe4 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -282,6 +282,8 @@ class Quad:
             return np.sqrt(self.integrate(function**2, flat=flat))
         elif n == 1:
             return self.integrate(abs(function), flat=flat)
+        else:
+            raise ValueError("Invalid argument: n must be 1 or 2")
 
     def transform(self, function, degree, index_set="triangle",
                   significant=0, tensorize=None):
-- 
2.43.0


From 502293f37424b882fec10e9a3d51b2974cd7b378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:08 +0000
Subject: [PATCH 48/57] fix: the indentation of trails is restored when a
 function raises

---
 hermipy/stats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hermipy/stats.py b/hermipy/stats.py
index ebdf4ec..74f9372 100644
--- a/hermipy/stats.py
+++ b/hermipy/stats.py
@@ -67,9 +67,11 @@ def log_stats(force=False):
 
             indent += 1
             time_start = time.time()
-            result = function(*args, **kwargs)
+            try:
+                result = function(*args, **kwargs)
+            finally:
+                indent -= 1
             time_end = time.time()
-            indent -= 1
 
             if key not in stats:
                 stats[key] = {'Calls': 0, 'Time': 0}
-- 
2.43.0


From efe84381b3a94b992fad5d06394e56b9d058e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:08 +0000
Subject: [PATCH 49/57] fix: plot does not modify the series and accepts a
 discretized factor

---
 hermipy/quad.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index a453fe4..a966551 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -519,15 +519,17 @@ class Quad:
 
             # Fix me maybe?
             if series.coeffs.dtype == np.dtype('complex128'):
-                series.coeffs = np.real(series.coeffs).copy(order='C')
+                series = hm.Series(np.real(series.coeffs).copy(order='C'),
+                                   series.position, factor=series.factor,
+                                   index_set=series.index_set)
 
-            if factor is None:
-                solution = self.eval(series)
+            solution = self.eval(series)
 
-            elif not isinstance(factor, np.ndarray):
-                factor = hm.Function(factor, dirs=self.position.dirs)
-                factor = self.discretize(factor)
-                solution = self.eval(series)*factor
+            if factor is not None:
+                if not isinstance(factor, np.ndarray):
+                    factor = hm.Function(factor, dirs=self.position.dirs)
+                    factor = self.discretize(factor)
+                solution = solution*factor
 
             if bounds:
 
-- 
2.43.0


From 334a6beb6784c2d2246c47698201b2a948ba6f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:08 +0000
Subject: [PATCH 50/57] fix: streamlines of functions, and in directions other
 than the first

---
 hermipy/quad.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index a966551..4057117 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -599,27 +599,27 @@ class Quad:
         if isinstance(fx, hm.Function):
             if factor is not None:
                 raise ValueError("Invalid argument!")
-            fx, fy = self.discretize(fx), self.discretize(fy)
+            sx, sy = self.discretize(fx), self.discretize(fy)
 
         elif isinstance(fx, hm.Series):
 
-            if factor is None:
-                sx, sy = self.eval(fx), self.eval(fy)
+            sx, sy = self.eval(fx), self.eval(fy)
 
-            elif not isinstance(factor, np.ndarray):
-                factor = hm.Function(factor, dirs=self.position.dirs)
-                factor = self.discretize(factor)
-                sx, sy = self.eval(fx)*factor, self.eval(fy)*factor
+            if factor is not None:
+                if not isinstance(factor, np.ndarray):
+                    factor = hm.Function(factor, dirs=self.position.dirs)
+                    factor = self.discretize(factor)
+                sx, sy = sx*factor, sy*factor
 
         else:
             raise TypeError("Unsupported type: " + str(type(fx)))
 
         n_nodes = []
         r_nodes = []
-        for i in range(self.position.dim):
-            direction = hm.Function.xyz[self.position.dirs[i]]
+        for i, d in enumerate(self.position.dirs):
+            direction = hm.Function.xyz[d]
             n_nodes.append(len(self.nodes[i]))
-            r_nodes.append(self.project(i).discretize(direction))
+            r_nodes.append(self.project(d).discretize(direction))
         sx, sy = sx.reshape(*n_nodes).T, sy.reshape(*n_nodes).T
         # magnitude = sx**2 + sy**2
         x, y = r_nodes[0], r_nodes[1]
-- 
2.43.0


From 95f3ffe170f942bbcb36e00ad8aa4e7d42724bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:08 +0000
Subject: [PATCH 51/57] fix: plots when the factor of the quadrature is not a
 product

---
 hermipy/quad.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 4057117..d1218e5 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -435,6 +435,12 @@ class Quad:
             weights.append(self.weights[self.position.dirs.index(d)])
         return Quad(nodes, weights, position=position, factor=factor)
 
+    def _project_nodes(self, d):
+        # Unlike project, does not require that the factor can be projected
+        i = self.position.dirs.index(d)
+        return Quad([self.nodes[i]], [self.weights[i]],
+                    position=self.position.project(d))
+
     def series(self, coeffs, index_set="triangle"):
         """Return a series from a vector of coefficients.
 
@@ -556,7 +562,7 @@ class Quad:
         for i, d in enumerate(self.position.dirs):
             direction = hm.Function.xyz[d]
             n_nodes.append(len(self.nodes[i]))
-            r_nodes.append(self.project(d).discretize(direction))
+            r_nodes.append(self._project_nodes(d).discretize(direction))
         solution = solution.reshape(*n_nodes).T
 
         if self.position.dim == 1:
@@ -619,7 +625,7 @@ class Quad:
         for i, d in enumerate(self.position.dirs):
             direction = hm.Function.xyz[d]
             n_nodes.append(len(self.nodes[i]))
-            r_nodes.append(self.project(d).discretize(direction))
+            r_nodes.append(self._project_nodes(d).discretize(direction))
         sx, sy = sx.reshape(*n_nodes).T, sy.reshape(*n_nodes).T
         # magnitude = sx**2 + sy**2
         x, y = r_nodes[0], r_nodes[1]
-- 
2.43.0


From db78974cf0e96fa1d8aa6105147729b4cd10309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:08 +0000
Subject: [PATCH 52/57] fix: the plot of a sparse matrix shows the magnitude of
 the entries

---
 hermipy/varf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index a3c2291..cd68ce6 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -269,7 +269,9 @@ class Varf:
         rows, cols, data = [], [], []
         if self.is_sparse:
             s = self.matrix.tocoo()
-            rows, cols, data = s.row, s.col, s.data
+            visible = abs(s.data) > 1e-9
+            rows, cols = s.row[visible], s.col[visible]
+            data = abs(s.data[visible])
         else:
             for i in range(self.matrix.shape[0]):
                 for j in range(self.matrix.shape[1]):
-- 
2.43.0


From 072a5ed2dc2c1d01e61987a9cad421f731ae190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:45 +0000
Subject: [PATCH 53/57] fix: results with infinite or undefined entries can be
 recomputed when an entry exists

---
 hermipy/cache.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index e5810ad..0e5bdc6 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -80,15 +80,21 @@ def gen_error(extend=None):
     if extend is None:
         extend = default_extend
 
+    # Infinite and undefined entries agree with themselves
+    def difference(u, v):
+        equal = (u == v) | ((u != u) & (v != v))
+        with np.errstate(invalid='ignore'):
+            return np.where(equal, 0, np.subtract(u, v))
+
     def the_error(u, v):
         if isinstance(u, (float, int)):
-            return abs(u - v)
+            return abs(difference(u, v))
         elif isinstance(u, np.ndarray):
-            return la.norm(u - v, 2)
+            return la.norm(difference(u, v), 2)
         elif isinstance(u, sparse.csr_matrix):
             if not isinstance(v, sparse.csr_matrix):
                 raise ValueError("Type mismatch")
-            return la.norm(u.data - v.data, 2)
+            return la.norm(difference(u.data, v.data), 2)
         elif isinstance(u, tuple):
             return sum([the_error(ui, vi) for ui, vi in zip(u, v)])
         return extend(u, v)
-- 
2.43.0


From 5ea61856e5082877b5d94bf78dba76df1f9c88c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:59 +0000
Subject: [PATCH 54/57] fix: options given by position are taken into account
 by tensorization

---
 hermipy/quad.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index d1218e5..5cde980 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -21,6 +21,7 @@ import hermipy.core as core
 import hermipy.lib as lib
 import hermipy.stats as stats
 
+import inspect
 import numpy as np
 import numpy.linalg as la
 import sympy as sym
@@ -176,7 +177,14 @@ class Quad:
 
     def tensorize_at(arg_num: int):
         def tensorize_arg(func):
+            signature = inspect.signature(func)
+            names = list(signature.parameters)
+
             def wrapper(*args, **kwargs):
+                # The options can be given by position or by keyword
+                kwargs = dict(signature.bind(*args, **kwargs).arguments)
+                args = [kwargs.pop(name) for name in names[:arg_num + 1]]
+
                 tensorize = kwargs['tensorize'] if 'tensorize' in kwargs \
                         else None
                 do_tensorize = hm.settings['tensorize'] if \
-- 
2.43.0


From 4d7c5128187c86499308d62cc3d5d66c66504978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:32 +0000
Subject: [PATCH 55/57] fix: the factor of a covariance that is diagonal up to
 rounding errors is diagonal

---
 hermipy/position.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index b3648b3..d51304e 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -108,10 +108,13 @@ class Position:
             self.is_diag = False
 
         # Factor such that factor * factor^T = cov. The eigenvectors returned
-        # by eig are not orthogonal when an eigenvalue is repeated.
-        eig = la.eig if self.is_diag else la.eigh
-        eigval, eigvec = eig(self.cov)
-        self.factor = np.matmul(eigvec, np.sqrt(np.diag(eigval)))
+        # by eig are not orthogonal when an eigenvalue is repeated, and not
+        # along the axes when rounding errors leave off-diagonal entries.
+        if self.is_diag:
+            self.factor = np.sqrt(diag_cov)
+        else:
+            eigval, eigvec = la.eigh(self.cov)
+            self.factor = np.matmul(eigvec, np.sqrt(np.diag(eigval)))
 
     def __eq__(self, other):
         return self.dirs == other.dirs \
-- 
2.43.0


From 3a908e5c6625b54566ebe054335cf3fc46b8c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:43 +0000
Subject: [PATCH 56/57] fix: quadratures with different numbers of points can
 be compared

---
 hermipy/quad.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 5cde980..ba98a7a 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -164,6 +164,7 @@ class Quad:
 
         return self.position == other.position \
             and self.factor == other.factor \
+            and self.nodes.shape == other.nodes.shape \
             and la.norm(self.nodes - other.nodes) < very_small \
             and la.norm(self.weights - other.weights) < very_small
 
-- 
2.43.0


From 0d1bad431daf1728aafc72828ace4b0c8d224b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:37 +0000
Subject: [PATCH 57/57] fix: sizes of index sets do not overflow

The sizes of cubes, triangles and rectangles wrapped around (or were
undefined) beyond 32 bits, so iterator_get_degree failed for cubes and
rectangles in dimension 7 or 8, and wrong sizes were returned.
---
 cpp/src/hermite/iterators.cpp | 56 +++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/cpp/src/hermite/iterators.cpp b/cpp/src/hermite/iterators.cpp
index 9f563c3..550840c 100644
--- a/cpp/src/hermite/iterators.cpp
+++ b/cpp/src/hermite/iterators.cpp
@@ -19,6 +19,7 @@
  */
 
 #include <assert.h>
+#include <limits>
 #include <stdexcept>
 #include <unordered_map>
 #include "hermite/io.hpp"
@@ -32,6 +33,40 @@
 
 namespace hermite
 {
+// Numbers of multi-indices, which may exceed the range of u_int {{{
+static const double MAX_SIZE = std::numeric_limits<u_int>::max();
+
+static double cube_size(u_int dim, u_int degree)
+{
+    return pow(degree + 1., dim);
+}
+
+static double triangle_size(u_int dim, u_int degree)
+{
+    return boost::math::binomial_coefficient<double> (degree + dim, dim);
+}
+
+static double rectangle_size(u_int dim, u_int degree)
+{
+    double result = 1;
+    for (u_int i = 0; i < dim; i++)
+        result *= 1. + degree/(i == 0 ? 1 : 2);
+
+    return result;
+}
+
+static u_int checked(double size)
+{
+    if (size > MAX_SIZE)
+        throw std::overflow_error("Too many multi-indices");
+    return (u_int) size;
+}
+
+static u_int bounded(double size)
+{
+    return size > MAX_SIZE ? (u_int) MAX_SIZE : (u_int) size;
+}
+// }}}
 // Grid iterators (used for N-dim for loops)
 // Hypercube iterator {{{
 u_int Grid_iterator::index(const ivec & m_vec)
@@ -199,7 +234,7 @@ u_int Cube_iterator::s_index(const ivec & m_vec)
 
 u_int Cube_iterator::s_size(u_int dim, u_int degree)
 {
-    return (u_int) pow(degree + 1, dim);
+    return checked(cube_size(dim, degree));
 }
 
 imat Cube_iterator::s_list(u_int dim, u_int degree)
@@ -214,7 +249,7 @@ imat Cube_iterator::s_list(u_int dim, u_int degree)
 
 u_int Cube_iterator::s_get_degree(u_int dim, u_int n_polys)
 {
-    auto function = [dim] (u_int degree) {return s_size(dim, degree);};
+    auto function = [dim] (u_int degree) {return bounded(cube_size(dim, degree));};
     return pos_bissect (n_polys, function, DEGREE_BISSECT_MAX);
 }
 
@@ -280,8 +315,7 @@ u_int Triangle_iterator::s_index(const ivec & m_vec)
 
 u_int Triangle_iterator::s_size(u_int dim, u_int degree)
 {
-    using boost::math::binomial_coefficient;
-    return (u_int) binomial_coefficient<double> (degree + dim, dim);
+    return checked(triangle_size(dim, degree));
 }
 
 imat Triangle_iterator::s_list(u_int dim, u_int degree)
@@ -296,7 +330,7 @@ imat Triangle_iterator::s_list(u_int dim, u_int degree)
 
 u_int Triangle_iterator::s_get_degree(u_int dim, u_int n_polys)
 {
-    auto function = [dim] (u_int degree) {return s_size(dim, degree);};
+    auto function = [dim] (u_int degree) {return bounded(triangle_size(dim, degree));};
     return pos_bissect (n_polys, function, DEGREE_BISSECT_MAX);
 }
 
@@ -580,15 +614,7 @@ Rectangle_iterator::Rectangle_iterator(u_int dim, u_int degree)
 
 u_int Rectangle_iterator::s_size(u_int dim, u_int degree)
 {
-    ivec factors(dim, 0);
-    for (u_int i = 0; i < dim; i++)
-        factors[i] = i == 0 ? 1 : 2;
-
-    u_int result = 1;
-    for (u_int i = 0; i < factors.size(); i++)
-        result *= (1 + degree/factors[i]);
-
-    return result;
+    return checked(rectangle_size(dim, degree));
 }
 
 imat Rectangle_iterator::s_list(u_int dim, u_int degree)
@@ -601,7 +627,7 @@ imat Rectangle_iterator::s_list(u_int dim, u_int degree)
 
 u_int Rectangle_iterator::s_get_degree(u_int dim, u_int n_polys)
 {
-    auto function = [dim] (u_int degree) {return s_size(dim, degree);};
+    auto function = [dim] (u_int degree) {return bounded(rectangle_size(dim, degree));};
     return pos_bissect (n_polys, function, DEGREE_BISSECT_MAX);
 }
 
-- 
2.43.0

