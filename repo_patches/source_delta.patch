From 4e51e080f722d436122f51be0d552a9af0075173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:49 +0000
Subject: [PATCH 01/62] fix: mean over all axes must divide its Jacobian by the
 element count

---
 chumpy/ch_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index f5f2f74..96d7e03 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -356,7 +356,7 @@ class mean(Ch):
         if wrt is not self.x:
             return
         if self.axis == None:
-            return row(np.ones((1, len(self.x.r))))/len(self.x.r)
+            return row(np.ones((1, self.x.r.size)))/self.x.r.size
         else:
             uid = tuple(list(self.x.shape) + [self.axis])
             if uid not in self.dr_cache:
-- 
2.43.0


From 4c10579dc72abc285fd0bb70bc90c9a06c66dd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:52 +0000
Subject: [PATCH 02/62] fix: support plain numbers and arrays divided by a Ch
 under Python 3

---
 chumpy/ch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index e903df9..f485189 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1145,6 +1145,7 @@ class Ch(object):
     def __div__ (self, other): return divide(x1=self, x2=other)
     def __truediv__ (self, other): return divide(x1=self, x2=other)
     def __rdiv__(self, other): return divide(x1=other, x2=self)
+    def __rtruediv__(self, other): return divide(x1=other, x2=self)
 
     def __pow__ (self, other): return power(x=self, pow=other)
     def __rpow__(self, other): return power(x=other, pow=self)
-- 
2.43.0


From 7f5641ec08e84648b0462c1343509664ad82e4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:56 +0000
Subject: [PATCH 03/62] fix: elementwise and clip Jacobians for inputs whose
 first dimension is 1

---
 chumpy/ch_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 96d7e03..ff0bfe1 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -225,7 +225,7 @@ class UnaryElemwise(Ch):
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:
             result = self._d(self.x.r)
-            return sp.diags([result.ravel()], [0]) if len(result)>1 else np.atleast_2d(result)
+            return sp.diags([result.ravel()], [0]) if result.size>1 else np.atleast_2d(result.ravel())
 
 
 class nan_to_num(UnaryElemwise):
@@ -302,7 +302,7 @@ class clip(Ch):
     def compute_dr_wrt(self, wrt):
         if wrt is self.a:
             result = np.asarray((self.r != self.a_min) & (self.r != self.a_max), np.float64)
-            return sp.diags([result.ravel()], [0]) if len(result)>1 else np.atleast_2d(result)
+            return sp.diags([result.ravel()], [0]) if result.size>1 else np.atleast_2d(result.ravel())
 
 class sum(Ch):
     dterms = 'x',
-- 
2.43.0


From bea313cf018e26874a0fd3d4c3a0dc907b8af3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:01 +0000
Subject: [PATCH 04/62] fix: the Jacobian of sort is the sorting permutation,
 not the identity

---
 chumpy/reordering.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 0ab1cd3..f6859ba 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -60,6 +60,18 @@ class Sort(Reorder):
     def reorder(self, a): return np.sort(a, self.axis, self.kind, self.order)
     def unique_reorder_id(self): return None
 
+    def compute_dr_wrt(self, wrt):
+        if wrt is self.a:
+            # Entries move according to the current values, not to their positions
+            idxs = np.arange(self.a.size).reshape(self.a.shape)
+            axis = self.axis
+            if axis is None:
+                idxs, axis = idxs.ravel(), -1
+            order = np.argsort(self.a.r.reshape(idxs.shape), axis, self.kind, self.order)
+            JS = np.take_along_axis(idxs, order, axis).ravel()
+            IS = np.arange(JS.size)
+            return sp.csc_matrix((np.ones(JS.size), (IS, JS)), shape=(self.r.size, wrt.r.size))
+
 def sort(a, axis=-1, kind='quicksort', order=None):
     return Sort(a=a, axis=axis, kind=kind, order=order)
     
-- 
2.43.0


From 243267c6b5809cfdbc611f7aa9c56fe91562902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:04 +0000
Subject: [PATCH 05/62] fix: the zeros diag and diagflat fill in do not depend
 on element 0

---
 chumpy/reordering.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index f6859ba..3ab1605 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -46,11 +46,12 @@ class Reorder(Permute):
                 ashape = a.shape
                 key = self.unique_reorder_id()
                 if key not in self.dr_lookup or key is None:
-                    JS = self.reorder(np.arange(asz).reshape(ashape))
-                    IS = np.arange(JS.size)
+                    # Count from 1, because diag() and diagflat() fill in zeros of their own
+                    JS = self.reorder(np.arange(1, asz+1).reshape(ashape)).ravel()
+                    IS = np.flatnonzero(JS)
+                    JS = JS[IS] - 1
                     data = np.ones_like(IS)
-                    shape = JS.shape
-                    self.dr_lookup[key] = sp.csc_matrix((data, (IS, JS.ravel())), shape=(self.r.size, wrt.r.size))
+                    self.dr_lookup[key] = sp.csc_matrix((data, (IS, JS)), shape=(self.r.size, wrt.r.size))
                 return self.dr_lookup[key]
                  
 class Sort(Reorder):
-- 
2.43.0


From 8ed6ef89b9782bda73a20a24d01bfc4ff754de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:08 +0000
Subject: [PATCH 06/62] fix: derivative of tile with an integer repetition
 count

---
 chumpy/reordering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 3ab1605..65bee42 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -83,7 +83,7 @@ class Tile(Reorder):
     term_order = 'a', 'reps'
     
     def reorder(self, a): return np.tile(a, self.reps)
-    def unique_reorder_id(self): return (self.a.shape, tuple(self.reps))
+    def unique_reorder_id(self): return (self.a.shape, tuple(np.atleast_1d(self.reps)))
     
 def tile(A, reps):
     return Tile(a=A, reps=reps)
-- 
2.43.0


From cbf908757683d3635ff3a6f6f05ae69e7172652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:12 +0000
Subject: [PATCH 07/62] fix: repeat and roll must not reuse the Jacobian of an
 earlier input shape

---
 chumpy/reordering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 65bee42..519cbc1 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -115,7 +115,7 @@ class Repeat(Reorder):
     terms = 'repeats', 'axis'
     
     def reorder(self, a): return np.repeat(a, self.repeats, self.axis)
-    def unique_reorder_id(self): return (self.repeats, self.axis)
+    def unique_reorder_id(self): return (self.a.shape, tuple(np.atleast_1d(self.repeats)), self.axis)
 
 def repeat(a, repeats, axis=None):
     return Repeat(a=a, repeats=repeats, axis=axis)
@@ -160,7 +160,7 @@ class Roll(Reorder):
     term_order = 'a', 'shift', 'axis'
     
     def reorder(self, a): return np.roll(a, self.shift, self.axis)
-    def unique_reorder_id(self): return (self.shift, self.axis)
+    def unique_reorder_id(self): return (self.a.shape, self.shift, self.axis)
     
 def roll(a, shift, axis=None):
     return Roll(a, shift, axis)
-- 
2.43.0


From c6a39a5c2ee3439c1eb1fb5cba2271a5b3da34a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:15 +0000
Subject: [PATCH 08/62] fix: reverse mode must not compare Jacobian matrices
 with None by value

---
 chumpy/ch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index f485189..17d10f3 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -654,7 +654,7 @@ class Ch(object):
 
         direct_dr = self._compute_dr_wrt_sliced(wrt)
 
-        if direct_dr != None:
+        if direct_dr is not None:
             drs.append(self._superdot(lhs, direct_dr))
 
         for k in set(self.dterms):
@@ -764,7 +764,7 @@ class Ch(object):
                         tm_dr_wrt.pause()
                         dr2 = p.dr_wrt(wrt)
                         tm_dr_wrt.resume()
-                        indirect_dr = lhs.matmat(dr2) if dr2 != None else None
+                        indirect_dr = lhs.matmat(dr2) if dr2 is not None else None
                     else:
                         indirect_dr = p.lmult_wrt(lhs, wrt)
                 else: # forward mode
-- 
2.43.0


From 50adf4f392c3ea8020088efd3ebcdc03d71648af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:18 +0000
Subject: [PATCH 09/62] fix: hstack of 1-d arrays

---
 chumpy/reordering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 519cbc1..76c521a 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -458,7 +458,9 @@ def concatenate(mtxs, axis=0, **kwargs):
     return result
     
 def hstack(mtxs, **kwargs):
-    return concatenate(mtxs, axis=1, **kwargs)
+    mtxs = list(mtxs)
+    # As in numpy, 1-d arrays are joined end to end
+    return concatenate(mtxs, axis=0 if np.ndim(mtxs[0]) <= 1 else 1, **kwargs)
 
 def vstack(mtxs, **kwargs):
     return concatenate([atleast_2d(m) for m in mtxs], axis=0, **kwargs)
-- 
2.43.0


From 55007126e8d3cb63b909a4d9d394fdedc30f9c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:21 +0000
Subject: [PATCH 10/62] fix: maximum/minimum Jacobians for operands too large
 to resolve an offset of 1

---
 chumpy/ch_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index ff0bfe1..7ce044e 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -685,9 +685,9 @@ class Extremum(Ch):
                 
         IS, JS, input_sz, output_sz = _broadcast_setup(self.a, self.b, wrt)
         if wrt is self.a:
-            whichmax = (self.r == self.f(self.a.r, self.b.r-self.f(1,-1))).ravel()
+            whichmax = (self.r == self.a.r).ravel()
         else:
-            whichmax = (self.r == self.f(self.b.r, self.a.r-self.f(1,-1))).ravel()
+            whichmax = (self.r == self.b.r).ravel()
         IS = IS[whichmax]
         JS = JS[whichmax]
         data = np.ones(JS.size)
-- 
2.43.0


From 9f3b0b69f6a34eb8d8a1f0db8db6a99a97f5bff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:25 +0000
Subject: [PATCH 11/62] fix: import the hstack that Newton-type scipy methods
 need

---
 chumpy/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index 4f68b65..5dafc8f 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -13,7 +13,7 @@ from . import ch
 import scipy.sparse as sp
 import scipy.optimize
 
-from .optimization_internal import minimize_dogleg
+from .optimization_internal import minimize_dogleg, hstack
 
 #from memory_profiler import profile, memory_usage
 
-- 
2.43.0


From 8f72d3ef1be0aa3c4a3efc664ae06b36ddee2e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:40 +0000
Subject: [PATCH 12/62] fix: derivative of cross for 1-d, broadcast and
 repeated operands

---
 chumpy/ch_ops.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 7ce044e..479a4ff 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -145,34 +145,35 @@ class Cross(Ch):
         if wrt is not self.a and wrt is not self.b:
             return
 
-        sz = self.a.size
-        h, w = self.a.shape
-        tiled_identity, IS, JS = self._load_crossprod_cache(h, w)
+        a, b = np.broadcast_arrays(self.a.r, self.b.r)
+        h, w = a.size // a.shape[-1], a.shape[-1]
+        tiled_identity, IS, _ = self._load_crossprod_cache(h, w)
         
         #import time
         #tm = time.time()
+        # Both terms contribute when a and b are the same object
+        result = 0.
         if wrt is self.a:
-            rp = np.repeat(-self.b.r, w, axis=0) 
-            result = np.cross(
+            result = result + np.cross(
                 tiled_identity, 
-                rp,
+                np.repeat(-b.reshape((h, w)), w, axis=0),
                 self.axisa,
                 self.axisb, 
                 self.axisc, 
                 self.axis)
 
-        elif wrt is self.b:
-            result = np.cross(
-                np.repeat(-self.a.r, w, axis=0),
+        if wrt is self.b:
+            result = result + np.cross(
+                np.repeat(-a.reshape((h, w)), w, axis=0),
                 tiled_identity,
                 self.axisa,
                 self.axisb, 
                 self.axisc, 
                 self.axis)
                 
-        # rng = np.arange(sz)
-        # JS = np.repeat(rng.reshape((-1,w)), w, axis=0).ravel()
-        # IS = np.repeat(rng, w)
+        # columns of wrt that each (possibly broadcast) row of operands came from
+        rng = np.broadcast_to(np.arange(wrt.size).reshape(wrt.shape), a.shape)
+        JS = np.repeat(rng.reshape((h, w)), w, axis=0).ravel()
         data = result.ravel()
         result = sp.csc_matrix((data, (IS,JS)), shape=(self.size, wrt.size))
         #import pdb; pdb.set_trace()
-- 
2.43.0


From a4a6c3f5f195830925ee23e397d8fdb97ce37c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:44 +0000
Subject: [PATCH 13/62] fix: concatenate must forget cached terms and Jacobians
 when its inputs change

---
 chumpy/reordering.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 76c521a..c84c350 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -368,10 +368,14 @@ def flipud(m):
     return m[::-1,...]
     
 class Concatenate(Ch):
+    terms = 'axis'
 
     def on_changed(self, which):
-        if not hasattr(self, 'dr_cached'):
-            self.dr_cached = weakref.WeakKeyDictionary()
+        # What follows depends on which terms we have, on their shapes and on the axis
+        self.dr_cached = weakref.WeakKeyDictionary()
+        for cached in ('_our_terms', '_everything'):
+            if hasattr(self, cached):
+                delattr(self, cached)
             
     @property
     def our_terms(self):
-- 
2.43.0


From d6dd08696384ddacd7658ab5e935f19c72c73987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:48 +0000
Subject: [PATCH 14/62] fix: set() with several keywords must always invalidate
 caches

---
 chumpy/ch.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 17d10f3..2ec0cb3 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -474,12 +474,8 @@ class Ch(object):
         kwfirst = kwarg_keys.difference(kwsecond)
         kwall = list(kwfirst) + list(kwsecond)
 
-        # The complexity here comes because we wish to
-        # avoid clearing cache redundantly
-        if len(kwall) > 0:
-            for k in kwall[:-1]:
-                self.__setattr__(k, kwargs[k], 9999)
-            self.__setattr__(kwall[-1], kwargs[kwall[-1]], None)
+        for k in kwall:
+            self.__setattr__(k, kwargs[k])
             
 
     def is_dr_wrt(self, wrt):
-- 
2.43.0


From a3082f37393da7cbb4e53a7d14f15f4ec7daa2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:51 +0000
Subject: [PATCH 15/62] fix: remove_redundancy must keep change notification
 and distinct inputs intact

---
 chumpy/ch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 2ec0cb3..c9dc853 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -228,13 +228,15 @@ class Ch(object):
         for propname in list(self.dterms):
             prop = self.__dict__[propname]
 
-            if not hasattr(prop, 'dterms'):
+            # Inputs stay separate variables even if they happen to share an array
+            if not hasattr(prop, 'dterms') or type(prop) == Ch:
                 continue
             sid = prop.sid
             if sid not in cache:
                 cache[sid] = prop
             elif self.__dict__[propname] is not cache[sid]:
-                self.__dict__[propname] = cache[sid]
+                # registers us as a parent of the replacement
+                setattr(self, propname, cache[sid])
                 replacement_occurred = True
             if prop.remove_redundancy(cache, iterate=False):
                 replacement_occurred = True
-- 
2.43.0


From 30daab6e38c0350886bdb1de7aee29180b7082be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:55 +0000
Subject: [PATCH 16/62] fix: assignment through views: scalars, broadcasting,
 non-finite old values

---
 chumpy/ch.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index c9dc853..00981f6 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -529,19 +529,15 @@ class Ch(object):
                 else: 
                     raise Exception("Can't set array that is function of arrays.")
 
+            # The Jacobian tells which elements of "inner" are addressed
             self = self[key]
-            dr = self.dr_wrt(inner)
-            dr_rev = dr.T
-            #dr_rev = np.linalg.pinv(dr)
-            inner_shape = inner.shape
-
-            t1 = self._superdot(dr_rev, np.asarray(value).ravel())
-            t2 = self._superdot(dr_rev, self._superdot(dr, inner.x.ravel()))
-            if sp.issparse(t1): t1 = np.array(t1.todense())
-            if sp.issparse(t2): t2 = np.array(t2.todense())
-
-            inner.x = inner.x + t1.reshape(inner_shape) - t2.reshape(inner_shape)
-            #inner.x = inner.x + self._superdot(dr_rev, value.ravel()).reshape(inner_shape) - self._superdot(dr_rev, self._superdot(dr, inner.x.ravel())).reshape(inner_shape)
+            IS, JS = sp.csr_matrix(self.dr_wrt(inner)).nonzero()
+            newx = np.array(inner.r)
+            value = np.asarray(value)
+            if value.size != self.size:
+                value = np.broadcast_to(value, self.shape)
+            newx.ravel()[JS] = value.ravel()[IS]
+            inner.x = newx
 
 
     def __str__(self):
-- 
2.43.0


From da53e55134bd62058c3716e1e0920b958beb1b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:00 +0000
Subject: [PATCH 17/62] fix: dogleg must shrink the trust region when a trial
 step gives nan

---
 chumpy/optimization_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index 1043633..0b4a237 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -351,7 +351,7 @@ class DoglegState(object):
     def updateRadius(self, rho, lb=.05, ub=.9):
         if rho > ub:
             self.delta = max(self.delta, 2.5*np.linalg.norm(self.d_dl))
-        elif rho < lb:
+        elif not rho >= lb: # also when the trial residual (and thus rho) is nan
             self.delta *= .25
 
 
-- 
2.43.0


From 07f07560ea41323e9f079bd17ff8c39a17be9087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:05 +0000
Subject: [PATCH 18/62] fix: dogleg over several selections of one array

---
 chumpy/optimization_internal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index 0b4a237..4548361 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -75,8 +75,10 @@ class ChInputsStacked(ch.Ch):
         _giter += 1
         if 'x' in which:
             pos = 0
-            for idx, freevar in enumerate(self.free_variables):
-                sz = freevar.r.size
+            # Sizes first: evaluating in between would cache values that the assignments below
+            # do not clear again, if several free variables are parts of the same array
+            sizes = [freevar.r.size for freevar in self.free_variables]
+            for idx, sz in enumerate(sizes):
                 rng = np.arange(pos, pos+sz)
                 if isinstance(self.free_variables[idx], ch.Select):
                     # Deal with nested selects
-- 
2.43.0


From 4d67ebe45c51b836b0625a98b5b8b8f47cf1d633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:09 +0000
Subject: [PATCH 19/62] fix: derivatives of dot when the second operand has
 more than 2 dimensions

---
 chumpy/ch_ops.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 479a4ff..4b75dca 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -734,7 +734,8 @@ class dot(Ch):
     def compute_d1(self):
         # To stay consistent with numpy, we must upgrade 1D arrays to 2D
         ar = row(self.a.r) if len(self.a.r.shape)<2 else self.a.r.reshape((-1, self.a.r.shape[-1]))
-        br = col(self.b.r) if len(self.b.r.shape)<2 else self.b.r.reshape((self.b.r.shape[0], -1))
+        # (the summed axis of b is its second to last)
+        br = col(self.b.r) if len(self.b.r.shape)<2 else np.moveaxis(self.b.r, -2, 0).reshape((self.b.r.shape[-2], -1))
 
         if ar.ndim <= 2:
             return sp.kron(sp.eye(ar.shape[0], ar.shape[0]),br.T)
@@ -745,12 +746,16 @@ class dot(Ch):
         
         # To stay consistent with numpy, we must upgrade 1D arrays to 2D
         ar = row(self.a.r) if len(self.a.r.shape)<2 else self.a.r.reshape((-1, self.a.r.shape[-1]))
-        br = col(self.b.r) if len(self.b.r.shape)<2 else self.b.r.reshape((self.b.r.shape[0], -1))
+        br = col(self.b.r) if len(self.b.r.shape)<2 else np.moveaxis(self.b.r, -2, 0).reshape((self.b.r.shape[-2], -1))
 
         if br.ndim <= 1:
             return self.ar
         elif br.ndim <= 2:
-            return sp.kron(ar, sp.eye(br.shape[1],br.shape[1]))
+            result = sp.kron(ar, sp.eye(br.shape[1],br.shape[1]))
+            if self.b.r.ndim > 2: # columns back in the order of b
+                idxs = np.moveaxis(np.arange(self.b.r.size).reshape(self.b.r.shape), -2, 0)
+                result = result.tocsc()[:, np.argsort(idxs.ravel())]
+            return result
         else:
             raise NotImplementedError
             
-- 
2.43.0


From fd301f658c4e405a6bdf436dae076559968f77f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:13 +0000
Subject: [PATCH 20/62] fix: Interp3D is constant outside the image, so its
 derivative is zero there

---
 chumpy/extras.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chumpy/extras.py b/chumpy/extras.py
index 7043f57..8acf883 100644
--- a/chumpy/extras.py
+++ b/chumpy/extras.py
@@ -36,6 +36,8 @@ class Interp3D(ch.Ch):
             zc = col(self.gz[locations[:,0], locations[:,1], locations[:,2]])
 
             data = np.vstack([xc.ravel(), yc.ravel(), zc.ravel()]).T.copy()
+            # beyond the image the value is constant
+            data[(self.locations.r < 0) | (self.locations.r > np.array(self.image.shape)-1)] = 0.
             JS = np.arange(locations.size)
             IS = JS // 3
 
-- 
2.43.0


From f086f3c636bee5b56325ecf92963ec4ccf84eba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:18 +0000
Subject: [PATCH 21/62] fix: element assignment must not truncate when x was
 set to integers

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 00981f6..44ecc92 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -506,7 +506,7 @@ class Ch(object):
         if hasattr(value, 'dterms'):
             raise Exception("Can't assign a Ch objects as a subset of another.")
         if type(self) == Ch:# self.is_ch_baseclass():
-            data = np.atleast_1d(self.x)
+            data = np.atleast_1d(np.asarray(self.x, np.float64))
             data.__setitem__(key, value)
             self.__setattr__('x', data, itr=itr)
             return
-- 
2.43.0


From c216c3e4ac9d7c2d46cff0564d182079654cb745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:22 +0000
Subject: [PATCH 22/62] fix: ChLambda and ChGroup must not add term names to
 their class

---
 chumpy/ch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 44ecc92..0f836c4 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1248,7 +1248,7 @@ class ChLambda(Ch):
             if result.is_dr_wrt(arg.x):
                 self.add_dterm(argname, arg.x)
             else:
-                self.terms.append(argname)
+                self.terms = list(self.terms) + [argname]
                 setattr(self, argname, arg.x)
         self.args = args
         self.add_dterm('_result', result)
@@ -1291,7 +1291,7 @@ class ChGroup(Ch):
             if result.is_dr_wrt(arg.x):
                 self.add_dterm(argname, arg.x)
             else:
-                self.terms.append(argname)
+                self.terms = list(self.terms) + [argname]
                 setattr(self, argname, arg.x)
         self._result = result
         
-- 
2.43.0


From 5eded68bcde965fde0ba8b8e57fa2c79cd0f8de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:27 +0000
Subject: [PATCH 23/62] fix: make_dense and make_sparse must also apply to
 cached and absent Jacobians

---
 chumpy/ch.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 0f836c4..9ac45dc 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -799,6 +799,12 @@ class Ch(object):
         if (result is not None) and (not sp.issparse(result)) and (not isinstance(result, LinearOperator)):
             result = np.atleast_2d(result)
         
+        if result is not None:
+            if getattr(self, '_make_dense', False) and sp.issparse(result):
+                result = result.todense()
+            if getattr(self, '_make_sparse', False) and not sp.issparse(result):
+                result = sp.csc_matrix(result)
+
         # When the number of parents is one, it indicates that
         # caching this is probably not useful because not 
         # more than one parent will likely ask for this same
@@ -817,11 +823,6 @@ class Ch(object):
         if DEBUG:
             self._status = 'done'
         
-        if getattr(self, '_make_dense', False) and sp.issparse(result):
-            result = result.todense()
-        if getattr(self, '_make_sparse', False) and not sp.issparse(result):
-            result = sp.csc_matrix(result)
-        
         if tm_dr_wrt() > 0.1:
             pif('dx of {} wrt {} in {}sec, sparse: {}'.format(self.short_name, wrt.short_name, tm_dr_wrt(), sp.issparse(result)))
 
-- 
2.43.0


From f5c9544a6dde71d71e000f5bca519731303704da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:30 +0000
Subject: [PATCH 24/62] fix: a scalar derivative stands for a multiple of the
 identity

---
 chumpy/ch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 9ac45dc..c3d7a69 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -737,6 +737,9 @@ class Ch(object):
 
         direct_dr = self._compute_dr_wrt_sliced(wrt)
 
+        if isinstance(direct_dr, numbers.Number) and self.size > 1:
+            direct_dr = direct_dr * sp.eye(self.size, self.size)
+
         if direct_dr is not None:
             drs.append(direct_dr)    
 
-- 
2.43.0


From 1d2db7008a74de851c268a97ff3e2f6dacffcdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:20 +0000
Subject: [PATCH 25/62] fix: sums of sparse and scalar 1x1 Jacobians

---
 chumpy/ch.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index c3d7a69..234f274 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -55,6 +55,13 @@ def _check_kw_conflict(cls):
         raise Exception("In class %s, don't use reserved keywords in terms/dterms: %s" % (str(cls), str(kw_conflict),))
 
 
+def _add_jacobians(x, y):
+    # 1x1 Jacobians may come as plain numbers, which can't be added to sparse matrices
+    if sp.issparse(x) != sp.issparse(y):
+        x, y = [a if sp.issparse(a) else np.atleast_2d(a) for a in (x, y)]
+    return x + y
+
+
 class Term(object):
     creation_counter = 0
     def __init__(self, default=None, desc=None, dr=True):
@@ -670,7 +677,7 @@ class Ch(object):
             result = drs[0]
 
         else:
-            result = reduce(lambda x, y: x+y, drs)
+            result = reduce(_add_jacobians, drs)
 
         return result
         
@@ -782,7 +789,7 @@ class Ch(object):
             # TODO: ????????
             # result = np.sum(x for x in drs)
             if not np.any([isinstance(a, LinearOperator) for a in drs]):
-                result = reduce(lambda x, y: x+y, drs)
+                result = reduce(_add_jacobians, drs)
             else:
                 result = LinearOperator(drs[0].shape, lambda x : reduce(lambda a, b: a.dot(x)+b.dot(x),drs))
 
-- 
2.43.0


From 56173652ffec0be5d6a0ab602df7a6b320fea80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:35 +0000
Subject: [PATCH 26/62] fix: count a sub-expression used for several terms once
 in the chain rule

---
 chumpy/ch.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 234f274..5fb75d0 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -62,6 +62,10 @@ def _add_jacobians(x, y):
     return x + y
 
 
+def _distinct(objs):
+    return list(collections.OrderedDict((id(o), o) for o in objs).values())
+
+
 class Term(object):
     creation_counter = 0
     def __init__(self, default=None, desc=None, dr=True):
@@ -658,8 +662,8 @@ class Ch(object):
         if direct_dr is not None:
             drs.append(self._superdot(lhs, direct_dr))
 
-        for k in set(self.dterms):
-            p = self.__dict__[k]
+        # A child used for several terms counts once: our derivative wrt it covers all of them
+        for p in _distinct([self.__dict__[k] for k in set(self.dterms)]):
 
             if hasattr(p, 'dterms') and p is not wrt and p.is_dr_wrt(wrt):
                 if not isinstance(p, Ch):
@@ -696,8 +700,7 @@ class Ch(object):
         if direct_dr is not None:
             drs.append(direct_dr)
 
-        for k in set(self.dterms):
-            p = getattr(self, k) # self.__dict__[k]
+        for p in _distinct([getattr(self, k) for k in set(self.dterms)]):
             if hasattr(p, 'dterms') and p is not wrt: # and p.is_dr_wrt(wrt):
                 lhs_for_child = self.compute_lop(p, lhs)
                 if lhs_for_child is not None: # Can be None with ChLambda, _result etc
@@ -754,9 +757,9 @@ class Ch(object):
             self._status = 'pending'
         
         propnames = set(_props_for(self.__class__))
-        for k in set(self.dterms).intersection(propnames.union(set(self.__dict__.keys()))):
-
-            p = getattr(self, k)
+        names = set(self.dterms).intersection(propnames.union(set(self.__dict__.keys())))
+        # A child used for several terms counts once: our derivative wrt it covers all of them
+        for p in _distinct([getattr(self, k) for k in names]):
 
             if hasattr(p, 'dterms') and p is not wrt:
 
-- 
2.43.0


From 198cf56492a0569d9deaf77f1b1facd07246e329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:44 +0000
Subject: [PATCH 27/62] fix: moment of a 1-d array

---
 chumpy/extras.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chumpy/extras.py b/chumpy/extras.py
index 8acf883..4874dd5 100644
--- a/chumpy/extras.py
+++ b/chumpy/extras.py
@@ -69,6 +69,8 @@ def moment(a, moment=1, axis=0):
             # the input was 1D, so return a scalar instead of a rank-0 array
             return np.float64(0.0)
     else:
-        mn = ch.expand_dims(a.mean(axis=axis), axis)
+        mn = a.mean(axis=axis)
+        if a.ndim > 1: # the mean of a 1-d array is 1-d already
+            mn = ch.expand_dims(mn, axis)
         s = ch.power((a-mn), moment)
         return s.mean(axis=axis)
-- 
2.43.0


From 23447052c87fca59861d5e13d29953eb5845f0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:32 +0000
Subject: [PATCH 28/62] fix: reverse mode through a node whose derivative is a
 scalar identity multiple

---
 chumpy/ch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 5fb75d0..a58f431 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -767,6 +767,8 @@ class Ch(object):
 
                 if reverse_mode:
                     lhs = self._compute_dr_wrt_sliced(p)
+                    if isinstance(lhs, numbers.Number) and self.size > 1:
+                        lhs = lhs * sp.eye(self.size, self.size)
                     if isinstance(lhs, LinearOperator):
                         tm_dr_wrt.pause()
                         dr2 = p.dr_wrt(wrt)
-- 
2.43.0


From e576071091b6114387fe0030eba805dfd7a9279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:44 +0000
Subject: [PATCH 29/62] fix: reverse mode with respect to a selection or view
 of an input

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index a58f431..747fd7e 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -665,7 +665,7 @@ class Ch(object):
         # A child used for several terms counts once: our derivative wrt it covers all of them
         for p in _distinct([self.__dict__[k] for k in set(self.dterms)]):
 
-            if hasattr(p, 'dterms') and p is not wrt and p.is_dr_wrt(wrt):
+            if hasattr(p, 'dterms') and p is not wrt:
                 if not isinstance(p, Ch):
                     print('BROKEN!')
                     raise Exception('Broken Should be Ch object')
-- 
2.43.0


From 6fa1f1137109c0b6f14d991e5d6536500f841bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:50 +0000
Subject: [PATCH 30/62] fix: derivative with respect to a selection of a
 selection

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 747fd7e..8b77102 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -320,7 +320,7 @@ class Ch(object):
         
             wrt._call_on_changed()
 
-            jac = wrt.compute_dr_wrt(inner).T
+            jac = wrt.dr_wrt(inner).T
 
             return self._superdot(result, jac)
 
-- 
2.43.0


From 02ce8bfbf22e2b3b981ed382499dd38d8011363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:16 +0000
Subject: [PATCH 31/62] fix: max/min along an axis must not rely on strides of
 dimensions of size 1

---
 chumpy/ch_ops.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 4b75dca..d3de384 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -648,9 +648,8 @@ class A_extremum(Ch):
             # np.amin here probably
             idxs = np.arange(mtx.size).reshape(mtx.shape)
             mn = np.amin(idxs, axis=axis)
-            mtx_strides = np.array(mtx.strides)
-            stride = mtx_strides / np.min(mtx_strides) # go from bytes to num elements
-            stride = stride[axis]
+            # (in elements; mtx.strides may be anything for dimensions of size 1)
+            stride = np.prod(mtx.shape[axis:][1:], dtype=int)
         return mn, stride
 
 
-- 
2.43.0


From 639883a76df039839d06fd8fd44f676a2b9bc9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:55 +0000
Subject: [PATCH 32/62] fix: element assignment must not write into arrays
 shared with others

---
 chumpy/ch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 8b77102..74995a6 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -517,7 +517,8 @@ class Ch(object):
         if hasattr(value, 'dterms'):
             raise Exception("Can't assign a Ch objects as a subset of another.")
         if type(self) == Ch:# self.is_ch_baseclass():
-            data = np.atleast_1d(np.asarray(self.x, np.float64))
+            # (a copy, since others may hold on to the array we have: its creator, or whoever asked for r)
+            data = np.array(np.atleast_1d(self.x), dtype=np.float64)
             data.__setitem__(key, value)
             self.__setattr__('x', data, itr=itr)
             return
-- 
2.43.0


From cda9233face1d3ee291668f3c76a69a15b30ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:39 +0000
Subject: [PATCH 33/62] fix: assignment through views broadcasts as NumPy
 assignment does

---
 chumpy/ch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 74995a6..4d09c54 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -547,7 +547,9 @@ class Ch(object):
             newx = np.array(inner.r)
             value = np.asarray(value)
             if value.size != self.size:
-                value = np.broadcast_to(value, self.shape)
+                broadcast = np.empty(self.shape)
+                broadcast[...] = value
+                value = broadcast
             newx.ravel()[JS] = value.ravel()[IS]
             inner.x = newx
 
-- 
2.43.0


From c1a7ba961344844a7c191df8d4495ee026ba0dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:02 +0000
Subject: [PATCH 34/62] fix: copying expressions that use one operand twice

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 4d09c54..0d4ebe2 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -399,7 +399,7 @@ class Ch(object):
             if hasattr(self, name):
                 term = getattr(self, name)
                 if self in term._parents:
-                    term._parents[self]['varnames'].remove(name)
+                    term._parents[self]['varnames'].discard(name)
                     if len(term._parents[self]['varnames']) == 0:
                         del term._parents[self]
                     
-- 
2.43.0


From 5af2d6cc26bbda8bbd7820bbf60e5dc91436916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:43 +0000
Subject: [PATCH 35/62] fix: replace a part by a function of itself where it is
 used several times

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 0d4ebe2..b6f9f98 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -472,7 +472,7 @@ class Ch(object):
             term = getattr(self, term_name)
             if term is old:
                 setattr(self, term_name, new)
-            elif hasattr(term, 'dterms'):
+            elif hasattr(term, 'dterms') and term is not new: # ("new" may be a function of "old")
                 term.replace(old, new)
         return new
   
-- 
2.43.0


From cdd7d0dc805eaba90a2f11621453eb6b86935417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:59 +0000
Subject: [PATCH 36/62] fix: ChGroup must not count what lies below its inputs
 twice

---
 chumpy/ch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index b6f9f98..fe5ef16 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1318,7 +1318,10 @@ class ChGroup(Ch):
         return self._result.r
        
     def compute_dr_wrt(self, wrt):
-        return self._result.dr_wrt(wrt)
+        # Only wrt our own inputs; what these depend on is up to the chain rule
+        drs = [self._result.dr_wrt(arg) for argname, arg in list(self.args.items()) if getattr(self, argname) is wrt]
+        drs = [dr for dr in drs if dr is not None]
+        return reduce(_add_jacobians, drs) if drs else None
 
 from .ch_ops import *
 from .ch_ops import __all__ as all_ch_ops
-- 
2.43.0


From ec76151bffbc28b89f191cc67ba4d8bbb76595fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:24 +0000
Subject: [PATCH 37/62] fix: linear operator Jacobians in sums and in reverse
 mode

---
 chumpy/ch.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index fe5ef16..49ee424 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -56,6 +56,9 @@ def _check_kw_conflict(cls):
 
 
 def _add_jacobians(x, y):
+    if isinstance(x, LinearOperator) or isinstance(y, LinearOperator):
+        x, y = [a if sp.issparse(a) or isinstance(a, LinearOperator) else np.atleast_2d(a) for a in (x, y)]
+        return LinearOperator(x.shape, lambda v : x.dot(v) + y.dot(v))
     # 1x1 Jacobians may come as plain numbers, which can't be added to sparse matrices
     if sp.issparse(x) != sp.issparse(y):
         x, y = [a if sp.issparse(a) else np.atleast_2d(a) for a in (x, y)]
@@ -692,7 +695,7 @@ class Ch(object):
     def compute_lop(self, wrt, lhs):
         dr = self._compute_dr_wrt_sliced(wrt)
         if dr is None: return None
-        return self._superdot(lhs, dr) if not isinstance(lhs, LinearOperator) else lhs.matmat(dr)
+        return self._superdot(lhs, dr)
         
         
     def lop(self, wrt, lhs):
@@ -722,7 +725,7 @@ class Ch(object):
             result = drs[0]
 
         else:
-            result = reduce(lambda x, y: x+y, drs)
+            result = reduce(_add_jacobians, drs)
 
             
         return result
@@ -776,7 +779,7 @@ class Ch(object):
                         tm_dr_wrt.pause()
                         dr2 = p.dr_wrt(wrt)
                         tm_dr_wrt.resume()
-                        indirect_dr = lhs.matmat(dr2) if dr2 is not None else None
+                        indirect_dr = self._superdot(lhs, dr2)
                     else:
                         indirect_dr = p.lmult_wrt(lhs, wrt)
                 else: # forward mode
@@ -794,12 +797,7 @@ class Ch(object):
         elif len(drs)==1:
             result = drs[0]
         else:
-            # TODO: ????????
-            # result = np.sum(x for x in drs)
-            if not np.any([isinstance(a, LinearOperator) for a in drs]):
-                result = reduce(_add_jacobians, drs)
-            else:
-                result = LinearOperator(drs[0].shape, lambda x : reduce(lambda a, b: a.dot(x)+b.dot(x),drs))
+            result = reduce(_add_jacobians, drs)
 
         # TODO: figure out how/whether to do this.
         if result is not None and not sp.issparse(result):
-- 
2.43.0


From f11766c0aacfc5a7c4ce32c6fe1c7e2405cee4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:30 +0000
Subject: [PATCH 38/62] fix: dogleg may meet a point where the Jacobian
 vanishes

---
 chumpy/optimization_internal.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index 4548361..8555dbf 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -310,7 +310,6 @@ class DoglegState(object):
             tm2 = timer()
             self.J = self.J.tocsr()
             pif('converted to csr in {}secs'.format(tm2()))
-            assert(self.J.nnz > 0)
         elif ch.VERBOSE:
             nonzero = np.count_nonzero(self.J)
             pif('Jacobian dense with sparsity %.3f' % (nonzero/self.J.size))
-- 
2.43.0


From 0202440c1c87cafb956f2e9cc74cd6864ebdf1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:42 +0000
Subject: [PATCH 39/62] fix: NanDivide has a zero derivative wherever its
 quotient is not finite

---
 chumpy/ch_ops.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index d3de384..8a60c0c 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -439,6 +439,10 @@ class NanDivide(divide):
         if result is not None:
             result = result.copy()
             if sp.issparse(result):
+                # where the quotient is replaced by zero, it does not depend on anything
+                with np.errstate(all='ignore'):
+                    bad = ~np.isfinite(self.x1.r / self.x2.r).ravel()
+                result.data[bad[result.indices]] = 0
                 result.data[np.isinf(result.data)] = 0
                 result.data[np.isnan(result.data)] = 0
                 return result
-- 
2.43.0


From 7815056f9ba52cf8a5786afabec744dab2b01580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:46 +0000
Subject: [PATCH 40/62] fix: derivative of a power of zero wrt the exponent is
 zero, not NaN

---
 chumpy/ch_ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 8a60c0c..c09fc57 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -598,7 +598,8 @@ class power (Ch):
         if wrt is self.x:
             result.append(pow * self.safe_power(x, pow-1.))
         if wrt is self.pow:
-            result.append(np.log(x) * self.safe_power(x, pow))
+            # (powers of zero stay zero, which log(0)*0 can't tell)
+            result.append(np.log(np.where(x == 0., 1., x)) * self.safe_power(x, pow))
             
         data = reduce(lambda x, y : x + y, result).ravel()
 
-- 
2.43.0


From 1e06f83cf9b4c28ed27f61300f07c582943aedee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:49 +0000
Subject: [PATCH 41/62] fix: print_labeled_residuals uses num_decimals for all
 parts

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 49ee424..8de5697 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -275,7 +275,7 @@ class Ch(object):
         for dterm in self.dterms:
             dt = getattr(self, dterm)            
             if hasattr(dt, 'dterms'):
-                dt.print_labeled_residuals(print_newline=False, where_to_print=where_to_print)            
+                dt.print_labeled_residuals(print_newline=False, num_decimals=num_decimals, where_to_print=where_to_print)
         if print_newline:
             where_to_print.write(('%.' + str(num_decimals) + 'e\n') % (np.sum(self.r**2),))
         
-- 
2.43.0


From 4c35443634380ca60e81d39fe481f364135badd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:52 +0000
Subject: [PATCH 42/62] fix: DEBUG can be turned on for expressions that exist
 already

---
 chumpy/ch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 8de5697..b6d130d 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -745,6 +745,8 @@ class Ch(object):
 
         if wrt in self._cache['drs']:
             if DEBUG:
+                if not hasattr(self, '_cache_info'): # created before DEBUG was turned on
+                    object.__setattr__(self, '_cache_info', {})
                 if wrt not in self._cache_info:
                     self._cache_info[wrt] = 0
                 self._cache_info[wrt] +=1
-- 
2.43.0


From 182ba2448261b3036a47bb2b1157c857ce805d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:56 +0000
Subject: [PATCH 43/62] fix: assert_string_equal and assert_no_warnings take
 strings and functions, not arrays

---
 chumpy/testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/testing.py b/chumpy/testing.py
index e8bed9e..966731c 100644
--- a/chumpy/testing.py
+++ b/chumpy/testing.py
@@ -1,8 +1,8 @@
 from . import ch
 import numpy as np
 
-fn1 = 'assert_allclose', 'assert_almost_equal', 'assert_approx_equal', 'assert_array_almost_equal', 'assert_array_almost_equal_nulp', 'assert_array_equal', 'assert_array_less', 'assert_array_max_ulp', 'assert_equal', 'assert_no_warnings', 'assert_string_equal'
-fn2 = 'assert_raises', 'assert_warns'
+fn1 = 'assert_allclose', 'assert_almost_equal', 'assert_approx_equal', 'assert_array_almost_equal', 'assert_array_almost_equal_nulp', 'assert_array_equal', 'assert_array_less', 'assert_array_max_ulp', 'assert_equal'
+fn2 = 'assert_raises', 'assert_warns', 'assert_no_warnings', 'assert_string_equal'
 
 # These are unhandled
 fn3 = 'build_err_msg', 'dec', 'decorate_methods', 'decorators', 'division', 'importall', 'jiffies', 'measure', 'memusage', 'nosetester', 'numpytest', 'print_assert_equal', 'print_function', 'raises', 'rand', 'run_module_suite', 'rundocs', 'runstring', 'test', 'utils', 'verbose'
-- 
2.43.0


From da3080ab974178d47b43dc4f99e12a2dbbc5cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:00 +0000
Subject: [PATCH 44/62] fix: mgrid and ogrid can be indexed

---
 chumpy/ch_ops.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index c09fc57..8571c9a 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -70,6 +70,17 @@ for rtn in ['argwhere', 'nonzero', 'flatnonzero']:
 for rtn in numpy_array_creation_routines:
     exec('def %s(*args, **kwargs) : return Ch(np.%s(*args, **kwargs))' % (rtn, rtn))
 
+# These are indexed instead of called
+class _Grid(object):
+    def __init__(self, grid):
+        self.grid = grid
+
+    def __getitem__(self, key):
+        result = self.grid[key]
+        return [Ch(r) for r in result] if isinstance(result, (list, tuple)) else Ch(result)
+
+mgrid, ogrid = _Grid(np.mgrid), _Grid(np.ogrid)
+
 
 class WontImplement(Exception):
     pass
-- 
2.43.0


From 2e642392429d8a87245738bc7e0b6bbd4e997dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:17 +0000
Subject: [PATCH 45/62] fix: show_tree and show_tree_wrt write text files in
 Python 3

---
 chumpy/ch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index b6d130d..31fc4ee 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1006,7 +1006,7 @@ class Ch(object):
             
         
         dot_file_contents = 'digraph G {\n%s\n}' % '\n'.join(list(set(string_for(self, 'root', wrt))))
-        dot_file = tempfile.NamedTemporaryFile()
+        dot_file = tempfile.NamedTemporaryFile('w')
         dot_file.write(dot_file_contents)
         dot_file.flush()
         png_file = tempfile.NamedTemporaryFile(suffix='.png', delete=False)
@@ -1087,9 +1087,9 @@ class Ch(object):
                         sz /= 1024
                         unit = 'T'
                         
-                    dot_file_contents = re.sub('<<<%s>>>' % s, '#%02x%02x%02x",label="%d%s' % (szpct*255, 0, (1-szpct)*255, sz, unit), dot_file_contents)
+                    dot_file_contents = re.sub('<<<%s>>>' % s, '#%02x%02x%02x",label="%d%s' % (int(szpct*255), 0, int((1-szpct)*255), sz, unit), dot_file_contents)
 
-        dot_file = tempfile.NamedTemporaryFile()
+        dot_file = tempfile.NamedTemporaryFile('w')
         dot_file.write(dot_file_contents)
         dot_file.flush()
         png_file = tempfile.NamedTemporaryFile(suffix='.png', delete=False)
-- 
2.43.0


From 79e18b8d3909d6db29739987e890de0b12179aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:45 +0000
Subject: [PATCH 46/62] fix: an operation derived from another one takes its
 own terms as positional arguments

---
 chumpy/ch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 31fc4ee..0319141 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -181,7 +181,9 @@ class Ch(object):
             cls.dterms = [t.name for t in parm_declarations if t.dr]
             cls.terms = [t.name for t in parm_declarations if not t.dr]
         else:
-            if not hasattr(cls, 'term_order'):
+            # The order of a base class is of no use if we declare other terms
+            redeclared = 'term_order' not in cls.__dict__ and ('dterms' in cls.__dict__ or 'terms' in cls.__dict__)
+            if not hasattr(cls, 'term_order') or (redeclared and set(cls.term_order) != set(cls.terms).union(cls.dterms)):
                 cls.term_order = list(cls.terms) + list(cls.dterms)
 
         _check_kw_conflict(cls)
-- 
2.43.0


From 3e2e3b6b7b1b5b2a936ee6c3cca3b7ba930dc042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:49 +0000
Subject: [PATCH 47/62] fix: remember set up classes by themselves, not by an
 id that may be reused

---
 chumpy/ch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 0319141..460d949 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -87,7 +87,7 @@ class Ch(object):
     dterms = ['x']
     __array_priority__ = 2.0
     _cached_parms = {}
-    _setup_terms = {}
+    _setup_terms = weakref.WeakKeyDictionary()
     _default_kwargs = {'make_dense' : False, 'make_sparse' : False}
     _status = "undefined"
     
@@ -157,7 +157,7 @@ class Ch(object):
 
     @classmethod
     def setup_terms(cls):
-        if id(cls) in cls._setup_terms: return
+        if cls in cls._setup_terms: return
 
         if cls == Ch:
             return
@@ -187,7 +187,7 @@ class Ch(object):
                 cls.term_order = list(cls.terms) + list(cls.dterms)
 
         _check_kw_conflict(cls)
-        cls._setup_terms[id(cls)] = True
+        cls._setup_terms[cls] = True
 
 
     ########################################################
-- 
2.43.0


From 8cb08379090fb7175ce93b063f78ded96dfc1fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:22 +0000
Subject: [PATCH 48/62] fix: show_tree_wrt counts the nonzeros of sparse
 Jacobians

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 460d949..d75354a 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -997,7 +997,7 @@ class Ch(object):
                         if wrt in dtval._cache['drs'] and dtval._cache['drs'][wrt] is not None:
                             issparse = sp.issparse(dtval._cache['drs'][wrt])
                             size = dtval._cache['drs'][wrt].size 
-                            nonzero = np.count_nonzero(dtval._cache['drs'][wrt])
+                            nonzero = dtval._cache['drs'][wrt].nnz if issparse else np.count_nonzero(dtval._cache['drs'][wrt])
                             result += ['%s [label="%s\n is_sparse: %s\nsize: %d\nnonzero: %d"];' %
                                        (dst, child_label, issparse, size,
                                         nonzero)]
-- 
2.43.0


From 91024986098bd13453fdba76f107bb1d1ec15ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:04 +0000
Subject: [PATCH 49/62] fix: the order of terms may be redeclared by a class in
 between

---
 chumpy/ch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index d75354a..b5431b3 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -182,7 +182,8 @@ class Ch(object):
             cls.terms = [t.name for t in parm_declarations if not t.dr]
         else:
             # The order of a base class is of no use if we declare other terms
-            redeclared = 'term_order' not in cls.__dict__ and ('dterms' in cls.__dict__ or 'terms' in cls.__dict__)
+            declaring = [c for c in cls.__mro__ if not {'term_order', 'dterms', 'terms'}.isdisjoint(c.__dict__)][0]
+            redeclared = 'term_order' not in declaring.__dict__
             if not hasattr(cls, 'term_order') or (redeclared and set(cls.term_order) != set(cls.terms).union(cls.dterms)):
                 cls.term_order = list(cls.terms) + list(cls.dterms)
 
-- 
2.43.0


From 06fd4959305231c6624651c7b271d176833cd397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:21 +0000
Subject: [PATCH 50/62] fix: default parameters are not reported as changes

Operations that fill in a missing axis, axes or start while being notified
did so by assignment, which counted as a change: the next query cleared the
caches of the operation and of everything above it and notified it again of
a parameter that nobody had changed.
---
 chumpy/ch_ops.py     | 8 ++++----
 chumpy/reordering.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 8571c9a..1806dde 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -204,7 +204,7 @@ class cumsum(Ch):
     
     def on_changed(self, which):
         if not hasattr(self, 'axis'):
-            self.axis = None
+            object.__setattr__(self, 'axis', None) # (our default, not a change)
     
     def compute_r(self):
         return np.cumsum(self.a.r, axis=self.axis)
@@ -323,7 +323,7 @@ class sum(Ch):
     
     def on_changed(self, which):
         if not hasattr(self, 'axis'):
-            self.axis = None
+            object.__setattr__(self, 'axis', None) # (our default, not a change)
         if not hasattr(self, 'dr_cache'):
             self.dr_cache = {}
 
@@ -357,7 +357,7 @@ class mean(Ch):
     
     def on_changed(self, which):
         if not hasattr(self, 'axis'):
-            self.axis = None
+            object.__setattr__(self, 'axis', None) # (our default, not a change)
         if not hasattr(self, 'dr_cache'):
             self.dr_cache = {}
 
@@ -638,7 +638,7 @@ class A_extremum(Ch):
 
     def on_changed(self, which):
         if not hasattr(self, 'axis'):
-            self.axis = None
+            object.__setattr__(self, 'axis', None) # (our default, not a change)
     
     def compute_r(self):        
         return self.f(self.a.r, axis=self.axis)
diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index c84c350..abc3144 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -129,7 +129,7 @@ class transpose(Reorder):
     def unique_reorder_id(self): return (self.a.shape, None if self.axes is None else tuple(self.axes))
     def on_changed(self, which):
         if not hasattr(self, 'axes'):
-            self.axes = None
+            object.__setattr__(self, 'axes', None) # (our default, not a change)
         super(self.__class__, self).on_changed(which)
     
 class rollaxis(Reorder):        
@@ -141,7 +141,7 @@ class rollaxis(Reorder):
     def unique_reorder_id(self): return (self.a.shape, self.axis, self.start)
     def on_changed(self, which):
         if not hasattr(self, 'start'):
-            self.start = 0
+            object.__setattr__(self, 'start', 0) # (our default, not a change)
         super(self.__class__, self).on_changed(which)
 
 class swapaxes(Reorder):        
-- 
2.43.0


From 48dab28fbce1a47271e5d84d8114c8d6ae776df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:44 +0000
Subject: [PATCH 51/62] fix: cross with axes or 2-element vectors has a
 derivative, and the right one

---
 chumpy/ch_ops.py | 78 ++++++++++++++++--------------------------------
 1 file changed, 25 insertions(+), 53 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 1806dde..eb2348b 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -132,64 +132,36 @@ class Cross(Ch):
     def compute_r(self):
         return np.cross(self.a.r, self.b.r, self.axisa, self.axisb, self.axisc, self.axis)
         
-    
-    def _load_crossprod_cache(self, h, w):
-        if not hasattr(self, '_w'):
-            self._w = 0
-            self._h = 0
-
-        if h!=self._h or w!=self._w:
-            sz = h*w
-            rng = np.arange(sz)
-            self._JS = np.repeat(rng.reshape((-1,w)), w, axis=0).ravel()
-            self._IS = np.repeat(rng, w)
-            self._tiled_identity = np.tile(np.eye(w), (h, 1))
-            self._h = h
-            self._w = w
-            
-        return self._tiled_identity, self._IS, self._JS, 
-            
-    
-
-    # Could be at least 2x faster, with some work
     def compute_dr_wrt(self, wrt):
         if wrt is not self.a and wrt is not self.b:
             return
 
-        a, b = np.broadcast_arrays(self.a.r, self.b.r)
-        h, w = a.size // a.shape[-1], a.shape[-1]
-        tiled_identity, IS, _ = self._load_crossprod_cache(h, w)
-        
-        #import time
-        #tm = time.time()
+        # The vectors to multiply along the last axis
+        axisa, axisb, axisc = (self.axisa, self.axisb, self.axisc) if self.axis is None else (self.axis,)*3
+        a, b = np.moveaxis(self.a.r, axisa, -1), np.moveaxis(self.b.r, axisb, -1)
+
+        # The entries of the result for each pair of them (one, if they have two elements each)
+        rows = np.arange(self.size).reshape(self.shape)
+        if a.shape[-1] == 2 and b.shape[-1] == 2:
+            rows = rows.reshape(np.broadcast(a[..., 0], b[..., 0]).shape + (1,))
+        else:
+            rows = np.moveaxis(rows, axisc, -1)
+
         # Both terms contribute when a and b are the same object
-        result = 0.
-        if wrt is self.a:
-            result = result + np.cross(
-                tiled_identity, 
-                np.repeat(-b.reshape((h, w)), w, axis=0),
-                self.axisa,
-                self.axisb, 
-                self.axisc, 
-                self.axis)
-
-        if wrt is self.b:
-            result = result + np.cross(
-                np.repeat(-a.reshape((h, w)), w, axis=0),
-                tiled_identity,
-                self.axisa,
-                self.axisb, 
-                self.axisc, 
-                self.axis)
-                
-        # columns of wrt that each (possibly broadcast) row of operands came from
-        rng = np.broadcast_to(np.arange(wrt.size).reshape(wrt.shape), a.shape)
-        JS = np.repeat(rng.reshape((h, w)), w, axis=0).ravel()
-        data = result.ravel()
-        result = sp.csc_matrix((data, (IS,JS)), shape=(self.size, wrt.size))
-        #import pdb; pdb.set_trace()
-        #print 'B TOOK %es' % (time.time() -tm )
-        return result
+        IS, JS, data = [], [], []
+        for is_a, term, axis in ((True, self.a, axisa), (False, self.b, axisb)):
+            if wrt is not term:
+                continue
+            cols = np.moveaxis(np.arange(wrt.size).reshape(wrt.shape), axis, -1)
+            for k, unit in enumerate(np.eye(cols.shape[-1])):
+                d = np.cross(unit, b) if is_a else np.cross(a, unit)
+                d = d[..., np.newaxis] if rows.shape[-1] == 1 else d
+                IS.append(rows.ravel())
+                JS.append(np.broadcast_to(cols[..., k:k+1], rows.shape).ravel())
+                data.append(np.broadcast_to(d, rows.shape).ravel())
+
+        data, IS, JS = [np.concatenate(m) for m in (data, IS, JS)]
+        return sp.csc_matrix((data, (IS, JS)), shape=(self.size, wrt.size))
     
 def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
     return Cross(a, b, axisa, axisb, axisc, axis)
-- 
2.43.0


From 8820e1ef000d2530f80fc1aa143f704b47232b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:48 +0000
Subject: [PATCH 52/62] fix: accept the axes of transpose as separate arguments

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index b5431b3..e2e719e 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -580,7 +580,7 @@ class Ch(object):
         return transpose(self)
         
     def transpose(self, *axes):
-        return transpose(self, *axes)
+        return transpose(self, axes) if len(axes) > 1 else transpose(self, *axes)
         
     def squeeze(self, axis=None):
         return squeeze(self, axis)
-- 
2.43.0


From b5d298b17daeba927c871cb855a984a87f4d1231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:52 +0000
Subject: [PATCH 53/62] fix: derivative of roll by a list or array of shifts

---
 chumpy/reordering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index abc3144..eac2478 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -160,7 +160,7 @@ class Roll(Reorder):
     term_order = 'a', 'shift', 'axis'
     
     def reorder(self, a): return np.roll(a, self.shift, self.axis)
-    def unique_reorder_id(self): return (self.a.shape, self.shift, self.axis)
+    def unique_reorder_id(self): return (self.a.shape, tuple(np.atleast_1d(self.shift)), tuple(np.atleast_1d(self.axis)))
     
 def roll(a, shift, axis=None):
     return Roll(a, shift, axis)
-- 
2.43.0


From eb375918374ef02f81215ad1eb17a23858564a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:55 +0000
Subject: [PATCH 54/62] fix: derivative of concatenate with axis=None

---
 chumpy/reordering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index eac2478..7ca4f5a 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -451,6 +451,8 @@ def expand_concatenates(mtxs, axis=0):
 
 def concatenate(mtxs, axis=0, **kwargs):
 
+    if axis is None: # as in numpy, flatten the arrays first
+        mtxs, axis = [ravel(m) for m in mtxs], 0
     mtxs = expand_concatenates(mtxs, axis)
 
     result = Concatenate(**kwargs)
-- 
2.43.0


From 3da4d59ae485c21a05aef0355717c54218826e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:59 +0000
Subject: [PATCH 55/62] fix: derivative of clip when the limits are larger than
 the array

---
 chumpy/ch_ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index eb2348b..aaa6deb 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -286,6 +286,9 @@ class clip(Ch):
     def compute_dr_wrt(self, wrt):
         if wrt is self.a:
             result = np.asarray((self.r != self.a_min) & (self.r != self.a_max), np.float64)
+            if result.size != wrt.size: # (broadcast to the shape of the limits)
+                JS = np.broadcast_to(np.arange(wrt.size).reshape(wrt.shape), result.shape)
+                return sp.csc_matrix((result.ravel(), (np.arange(result.size), JS.ravel())), shape=(result.size, wrt.size))
             return sp.diags([result.ravel()], [0]) if result.size>1 else np.atleast_2d(result.ravel())
 
 class sum(Ch):
-- 
2.43.0


From 0fd8ee5138fdd623b7ef9f1cc444cf8f5c113585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:02 +0000
Subject: [PATCH 56/62] fix: Jacobians of empty arrays have no rows, and dot
 over an empty axis has one

---
 chumpy/ch_ops.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index aaa6deb..14718d5 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -209,7 +209,7 @@ class UnaryElemwise(Ch):
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:
             result = self._d(self.x.r)
-            return sp.diags([result.ravel()], [0]) if result.size>1 else np.atleast_2d(result.ravel())
+            return sp.diags([result.ravel()], [0]) if result.size>1 else np.diag(result.ravel())
 
 
 class nan_to_num(UnaryElemwise):
@@ -289,7 +289,7 @@ class clip(Ch):
             if result.size != wrt.size: # (broadcast to the shape of the limits)
                 JS = np.broadcast_to(np.arange(wrt.size).reshape(wrt.shape), result.shape)
                 return sp.csc_matrix((result.ravel(), (np.arange(result.size), JS.ravel())), shape=(result.size, wrt.size))
-            return sp.diags([result.ravel()], [0]) if result.size>1 else np.atleast_2d(result.ravel())
+            return sp.diags([result.ravel()], [0]) if result.size>1 else np.diag(result.ravel())
 
 class sum(Ch):
     dterms = 'x',
@@ -723,9 +723,9 @@ class dot(Ch):
     
     def compute_d1(self):
         # To stay consistent with numpy, we must upgrade 1D arrays to 2D
-        ar = row(self.a.r) if len(self.a.r.shape)<2 else self.a.r.reshape((-1, self.a.r.shape[-1]))
+        ar = row(self.a.r) if len(self.a.r.shape)<2 else self.a.r.reshape((np.prod(self.a.r.shape[:-1]), self.a.r.shape[-1]))
         # (the summed axis of b is its second to last)
-        br = col(self.b.r) if len(self.b.r.shape)<2 else np.moveaxis(self.b.r, -2, 0).reshape((self.b.r.shape[-2], -1))
+        br = col(self.b.r) if len(self.b.r.shape)<2 else np.moveaxis(self.b.r, -2, 0).reshape((self.b.r.shape[-2], np.prod(self.b.r.shape[:-2] + self.b.r.shape[-1:])))
 
         if ar.ndim <= 2:
             return sp.kron(sp.eye(ar.shape[0], ar.shape[0]),br.T)
@@ -735,8 +735,8 @@ class dot(Ch):
     def compute_d2(self):
         
         # To stay consistent with numpy, we must upgrade 1D arrays to 2D
-        ar = row(self.a.r) if len(self.a.r.shape)<2 else self.a.r.reshape((-1, self.a.r.shape[-1]))
-        br = col(self.b.r) if len(self.b.r.shape)<2 else np.moveaxis(self.b.r, -2, 0).reshape((self.b.r.shape[-2], -1))
+        ar = row(self.a.r) if len(self.a.r.shape)<2 else self.a.r.reshape((np.prod(self.a.r.shape[:-1]), self.a.r.shape[-1]))
+        br = col(self.b.r) if len(self.b.r.shape)<2 else np.moveaxis(self.b.r, -2, 0).reshape((self.b.r.shape[-2], np.prod(self.b.r.shape[:-2] + self.b.r.shape[-1:])))
 
         if br.ndim <= 1:
             return self.ar
-- 
2.43.0


From a063d66fd576f726347dad4e94880a94333a1b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:20 +0000
Subject: [PATCH 57/62] fix: name the reserved keywords when refusing a class
 that uses them as terms

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index e2e719e..e8e4b83 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -52,7 +52,7 @@ def _check_kw_conflict(cls):
     if cls not in _kw_conflict_dict:
         _kw_conflict_dict[cls] = Ch._reserved_kw.intersection(set(cls.terms).union(set(cls.dterms)))
     if _kw_conflict_dict[cls]:
-        raise Exception("In class %s, don't use reserved keywords in terms/dterms: %s" % (str(cls), str(kw_conflict),))
+        raise Exception("In class %s, don't use reserved keywords in terms/dterms: %s" % (str(cls), str(_kw_conflict_dict[cls]),))
 
 
 def _add_jacobians(x, y):
-- 
2.43.0


From bfc0586925de950a2a182c805f4d8e3219544cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:33 +0000
Subject: [PATCH 58/62] fix: derivative of Select with a list, a mask, negative
 or several dimensions of indices

---
 chumpy/reordering.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 7ca4f5a..94751f0 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -301,11 +301,12 @@ class Select(Permute):
     def compute_dr_wrt(self, obj):
         if obj is self.a:
             if not hasattr(self, '_dr_cached'):
-                IS = np.arange(len(self.idxs))
-                JS = self.idxs.ravel()
+                # (idxs may be anything that compute_r can index with)
+                JS = np.arange(self.a.size)[self.idxs].ravel()
+                IS = np.arange(JS.size)
                 ij = np.vstack((row(IS), row(JS)))
-                data = np.ones(len(self.idxs))
-                self._dr_cached = sp.csc_matrix((data, ij), shape=(len(self.idxs), np.prod(self.a.shape)))
+                data = np.ones(JS.size)
+                self._dr_cached = sp.csc_matrix((data, ij), shape=(JS.size, np.prod(self.a.shape)))
             return self._dr_cached
         
     def on_changed(self, which):
-- 
2.43.0


From 9618d46f52645d8d9ed0510bea3295773815382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:38 +0000
Subject: [PATCH 59/62] fix: a derivative given as a number has no rows for an
 empty array

---
 chumpy/ch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index e8e4b83..c67c7ba 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -758,7 +758,7 @@ class Ch(object):
 
         direct_dr = self._compute_dr_wrt_sliced(wrt)
 
-        if isinstance(direct_dr, numbers.Number) and self.size > 1:
+        if isinstance(direct_dr, numbers.Number) and self.size != 1:
             direct_dr = direct_dr * sp.eye(self.size, self.size)
 
         if direct_dr is not None:
@@ -778,7 +778,7 @@ class Ch(object):
 
                 if reverse_mode:
                     lhs = self._compute_dr_wrt_sliced(p)
-                    if isinstance(lhs, numbers.Number) and self.size > 1:
+                    if isinstance(lhs, numbers.Number) and self.size != 1:
                         lhs = lhs * sp.eye(self.size, self.size)
                     if isinstance(lhs, LinearOperator):
                         tm_dr_wrt.pause()
-- 
2.43.0


From a352124f7e56f178d51850be4ac73b2bcd93cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:34 +0000
Subject: [PATCH 60/62] fix: create the folder for profiles when minimising in
 debug mode

---
 chumpy/monitor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chumpy/monitor.py b/chumpy/monitor.py
index 25f278b..b5a8a03 100644
--- a/chumpy/monitor.py
+++ b/chumpy/monitor.py
@@ -81,6 +81,8 @@ class DrWrtProfiler(object):
         ts = time.time()
         if base_path:
             self.base_path = base_path
+        if not os.path.isdir(self.base_path):
+            os.makedirs(self.base_path)
                        
         self.path = os.path.join(self.base_path, 'profile_%s.json' % str(ts))
         self.root_path = os.path.join(self.base_path, 'root_%s.json' % str(ts))
-- 
2.43.0


From d2631c3743be7c1597b2ce7702d4701295ef0d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:55 +0000
Subject: [PATCH 61/62] fix: drawing of a tree with its caches

---
 chumpy/ch.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index c67c7ba..55b9fec 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -887,6 +887,8 @@ class Ch(object):
         assert DEBUG, "Please use dr tree visualization functions in debug mode"
 
         cache_path = os.path.abspath('profiles')
+        if not os.path.isdir(cache_path):
+            os.makedirs(cache_path)
         def string_for(self, my_name):
 
             color_mapping = {'new' : 'grey', 'pending':'red', 'cached':'yellow', 'done': 'green'}
@@ -906,10 +908,10 @@ class Ch(object):
                         dst = 'aaa%d' % (id(dtval))
 
                         s = ''
-                        color = color_mapping[dtval._status] if hasattr(dtval, '_status') else 'grey'
+                        color = color_mapping.get(getattr(dtval, '_status', None), 'grey')
                         if dtval == current_node:
                             color = 'blue'
-                        if isinstance(dtval, Concatenate) and len(dtval.dr_cached) > 0:
+                        if len(getattr(dtval, 'dr_cached', {})) > 0:
                             s = 'dr_cached\n'
                             for k, v in dtval.dr_cached.items():
                                 if v is not None:
@@ -940,7 +942,7 @@ class Ch(object):
                                         nonzero = np.count_nonzero(v)     
 
                                     s += '\nsparse: %s\nsize: %d\nnonzero: %d\n' % (issparse, size, nonzero)
-                                    if hasattr(dtval, '_cache_info'):
+                                    if k in getattr(dtval, '_cache_info', {}):
                                         s += '\ncache hit:%s\n' % dtval._cache_info[k]
                             # if hasattr(dtval,'called_dr_wrt') and dtval.called_dr_wrt:
                             # #   dtval.called_dr_wrt = False
-- 
2.43.0


From 509878dd5a8008a3a763a8aeaed3989085fa095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:36 +0000
Subject: [PATCH 62/62] fix: classes derived from one with a partial positional
 order keep it

---
 chumpy/ch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 55b9fec..f89faa2 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -164,6 +164,9 @@ class Ch(object):
 
         parm_declarations = cls.parm_declarations()
 
+        # The class whose declaration counts here
+        declaring = [c for c in cls.__mro__ if not {'term_order', 'dterms', 'terms'}.isdisjoint(c.__dict__)][0]
+
         if cls.dterms is Ch.dterms:
             cls.dterms = []
         elif isinstance(cls.dterms, str):
@@ -182,10 +185,11 @@ class Ch(object):
             cls.terms = [t.name for t in parm_declarations if not t.dr]
         else:
             # The order of a base class is of no use if we declare other terms
-            declaring = [c for c in cls.__mro__ if not {'term_order', 'dterms', 'terms'}.isdisjoint(c.__dict__)][0]
             redeclared = 'term_order' not in declaring.__dict__
             if not hasattr(cls, 'term_order') or (redeclared and set(cls.term_order) != set(cls.terms).union(cls.dterms)):
                 cls.term_order = list(cls.terms) + list(cls.dterms)
+            else:
+                cls.term_order = cls.term_order # (kept with what we set above)
 
         _check_kw_conflict(cls)
         cls._setup_terms[cls] = True
-- 
2.43.0

