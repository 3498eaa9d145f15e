From 7ecb3770d6c63578a70716b9be0c6673eca5f8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:24 +0000
Subject: [PATCH 01/49] fix: derivative through an expression used for two
 terms was counted twice

---
 chumpy/ch.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index e903df9..efeef2e 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -657,9 +657,15 @@ class Ch(object):
         if direct_dr != None:
             drs.append(self._superdot(lhs, direct_dr))
 
+        children_done = []
         for k in set(self.dterms):
             p = self.__dict__[k]
 
+            # The derivative wrt a child covers all the terms it is used for
+            if any(p is c for c in children_done):
+                continue
+            children_done.append(p)
+
             if hasattr(p, 'dterms') and p is not wrt and p.is_dr_wrt(wrt):
                 if not isinstance(p, Ch):
                     print('BROKEN!')
@@ -695,8 +701,15 @@ class Ch(object):
         if direct_dr is not None:
             drs.append(direct_dr)
 
+        children_done = []
         for k in set(self.dterms):
             p = getattr(self, k) # self.__dict__[k]
+
+            # The derivative wrt a child covers all the terms it is used for
+            if any(p is c for c in children_done):
+                continue
+            children_done.append(p)
+
             if hasattr(p, 'dterms') and p is not wrt: # and p.is_dr_wrt(wrt):
                 lhs_for_child = self.compute_lop(p, lhs)
                 if lhs_for_child is not None: # Can be None with ChLambda, _result etc
@@ -750,12 +763,18 @@ class Ch(object):
             self._status = 'pending'
         
         propnames = set(_props_for(self.__class__))
+        children_done = []
         for k in set(self.dterms).intersection(propnames.union(set(self.__dict__.keys()))):
 
             p = getattr(self, k)
 
             if hasattr(p, 'dterms') and p is not wrt:
 
+                # The derivative wrt a child covers all the terms it is used for
+                if any(p is c for c in children_done):
+                    continue
+                children_done.append(p)
+
                 indirect_dr = None
 
                 if reverse_mode:
-- 
2.43.0


From bc91e1967bfbabc422b26eae1e6f4a41594ad7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:43 +0000
Subject: [PATCH 02/49] fix: concatenate kept using replaced terms and
 derivatives of old shapes

---
 chumpy/reordering.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 0ab1cd3..8ad3db8 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -357,8 +357,10 @@ def flipud(m):
 class Concatenate(Ch):
 
     def on_changed(self, which):
-        if not hasattr(self, 'dr_cached'):
-            self.dr_cached = weakref.WeakKeyDictionary()
+        # What we stored may describe terms that were replaced or resized
+        self.dr_cached = weakref.WeakKeyDictionary()
+        for name in ('_our_terms', '_everything'):
+            self.__dict__.pop(name, None)
             
     @property
     def our_terms(self):
-- 
2.43.0


From ff9ed5b26cd9c5b1866906623234b4f7c7c0315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:43 +0000
Subject: [PATCH 03/49] fix: repeat and roll returned the derivative of an
 earlier input shape

---
 chumpy/reordering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 8ad3db8..60f427c 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -102,7 +102,7 @@ class Repeat(Reorder):
     terms = 'repeats', 'axis'
     
     def reorder(self, a): return np.repeat(a, self.repeats, self.axis)
-    def unique_reorder_id(self): return (self.repeats, self.axis)
+    def unique_reorder_id(self): return (self.a.shape, self.repeats, self.axis)
 
 def repeat(a, repeats, axis=None):
     return Repeat(a=a, repeats=repeats, axis=axis)
@@ -147,7 +147,7 @@ class Roll(Reorder):
     term_order = 'a', 'shift', 'axis'
     
     def reorder(self, a): return np.roll(a, self.shift, self.axis)
-    def unique_reorder_id(self): return (self.shift, self.axis)
+    def unique_reorder_id(self): return (self.a.shape, self.shift, self.axis)
     
 def roll(a, shift, axis=None):
     return Roll(a, shift, axis)
-- 
2.43.0


From f3c36af22415d3f61f8fcd06190cbd322c9abaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:43 +0000
Subject: [PATCH 04/49] fix: derivative of diag and diagflat tied every
 off-diagonal zero to the first input

---
 chumpy/reordering.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 60f427c..746156e 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -34,6 +34,11 @@ class Reorder(Permute):
             
     def compute_r(self):
         return self.reorder(self.a.r)
+
+    def source_idxs(self):
+        # For each output element, the (flat) element of "a" it comes from, or -1 if none
+        a = self.a
+        return self.reorder(np.arange(1, a.size+1).reshape(a.shape)) - 1
         
     def compute_dr_wrt(self, wrt):
         if wrt is self.a:
@@ -41,16 +46,13 @@ class Reorder(Permute):
                 from scipy.sparse.linalg.interface import LinearOperator
                 return LinearOperator((self.size, wrt.size), lambda x : self.reorder(x.reshape(self.a.shape)).ravel())
             else:
-                a = self.a
-                asz = a.size
-                ashape = a.shape
                 key = self.unique_reorder_id()
                 if key not in self.dr_lookup or key is None:
-                    JS = self.reorder(np.arange(asz).reshape(ashape))
-                    IS = np.arange(JS.size)
+                    JS = self.source_idxs().ravel()
+                    IS = np.flatnonzero(JS >= 0)
+                    JS = JS[IS]
                     data = np.ones_like(IS)
-                    shape = JS.shape
-                    self.dr_lookup[key] = sp.csc_matrix((data, (IS, JS.ravel())), shape=(self.r.size, wrt.r.size))
+                    self.dr_lookup[key] = sp.csc_matrix((data, (IS, JS)), shape=(self.r.size, wrt.r.size))
                 return self.dr_lookup[key]
                  
 class Sort(Reorder):
-- 
2.43.0


From f0afdb937517c14c4c254c3c4974aeb2bef3c025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:43 +0000
Subject: [PATCH 05/49] fix: derivative of sort ignored the order of the values

---
 chumpy/reordering.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 746156e..d35de08 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -61,6 +61,11 @@ class Sort(Reorder):
     
     def reorder(self, a): return np.sort(a, self.axis, self.kind, self.order)
     def unique_reorder_id(self): return None
+    def source_idxs(self):
+        order = np.argsort(self.a.r, self.axis, self.kind, self.order)
+        if self.axis is None:
+            return order
+        return np.take_along_axis(np.arange(self.a.size).reshape(self.a.shape), order, self.axis)
 
 def sort(a, axis=-1, kind='quicksort', order=None):
     return Sort(a=a, axis=axis, kind=kind, order=order)
-- 
2.43.0


From 5231bffd8aefe8e661665d7f7e06bc01f217308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:43 +0000
Subject: [PATCH 06/49] fix: derivative of the mean of a matrix had too few
 columns

---
 chumpy/ch_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index f5f2f74..96d7e03 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -356,7 +356,7 @@ class mean(Ch):
         if wrt is not self.x:
             return
         if self.axis == None:
-            return row(np.ones((1, len(self.x.r))))/len(self.x.r)
+            return row(np.ones((1, self.x.r.size)))/self.x.r.size
         else:
             uid = tuple(list(self.x.shape) + [self.axis])
             if uid not in self.dr_cache:
-- 
2.43.0


From bc2b69ba35b79246040012c19e763840b8542961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:43 +0000
Subject: [PATCH 07/49] fix: derivative of elementwise operations on single-row
 arrays had the wrong shape

---
 chumpy/ch_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 96d7e03..fa535e7 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -225,7 +225,7 @@ class UnaryElemwise(Ch):
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:
             result = self._d(self.x.r)
-            return sp.diags([result.ravel()], [0]) if len(result)>1 else np.atleast_2d(result)
+            return sp.diags([result.ravel()], [0]) if result.size>1 else result.reshape((1,1))
 
 
 class nan_to_num(UnaryElemwise):
@@ -302,7 +302,7 @@ class clip(Ch):
     def compute_dr_wrt(self, wrt):
         if wrt is self.a:
             result = np.asarray((self.r != self.a_min) & (self.r != self.a_max), np.float64)
-            return sp.diags([result.ravel()], [0]) if len(result)>1 else np.atleast_2d(result)
+            return sp.diags([result.ravel()], [0]) if result.size>1 else result.reshape((1,1))
 
 class sum(Ch):
     dterms = 'x',
-- 
2.43.0


From 6c355ebe1af9fd0738b56023c63800d1fbd3d43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:43 +0000
Subject: [PATCH 08/49] fix: derivative of cross(a, a) was not zero

---
 chumpy/ch_ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index fa535e7..9d41de4 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -142,7 +142,8 @@ class Cross(Ch):
 
     # Could be at least 2x faster, with some work
     def compute_dr_wrt(self, wrt):
-        if wrt is not self.a and wrt is not self.b:
+        # The cross product of something with itself is always zero
+        if (wrt is self.a) == (wrt is self.b):
             return
 
         sz = self.a.size
-- 
2.43.0


From 76bc410ae7729ab99fcc06914319265a923599a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:43 +0000
Subject: [PATCH 09/49] fix: reverse mode failed on dense derivatives

---
 chumpy/ch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index efeef2e..6b60d4d 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -654,7 +654,7 @@ class Ch(object):
 
         direct_dr = self._compute_dr_wrt_sliced(wrt)
 
-        if direct_dr != None:
+        if direct_dr is not None:
             drs.append(self._superdot(lhs, direct_dr))
 
         children_done = []
@@ -783,7 +783,7 @@ class Ch(object):
                         tm_dr_wrt.pause()
                         dr2 = p.dr_wrt(wrt)
                         tm_dr_wrt.resume()
-                        indirect_dr = lhs.matmat(dr2) if dr2 != None else None
+                        indirect_dr = lhs.matmat(dr2) if dr2 is not None else None
                     else:
                         indirect_dr = p.lmult_wrt(lhs, wrt)
                 else: # forward mode
-- 
2.43.0


From 20919797d3be8e17f937176c9ea8d342dbb046e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:43 +0000
Subject: [PATCH 10/49] fix: reverse mode lost the derivative wrt a slice of a
 variable

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 6b60d4d..84c3942 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -666,7 +666,7 @@ class Ch(object):
                 continue
             children_done.append(p)
 
-            if hasattr(p, 'dterms') and p is not wrt and p.is_dr_wrt(wrt):
+            if hasattr(p, 'dterms') and p is not wrt: # and p.is_dr_wrt(wrt):
                 if not isinstance(p, Ch):
                     print('BROKEN!')
                     raise Exception('Broken Should be Ch object')
-- 
2.43.0


From 0d2579a9b863139ef0359f830e27575ab34787de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:43 +0000
Subject: [PATCH 11/49] fix: derivative wrt a slice of a slice failed

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 84c3942..9b7bd51 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -307,7 +307,7 @@ class Ch(object):
         
             wrt._call_on_changed()
 
-            jac = wrt.compute_dr_wrt(inner).T
+            jac = wrt.dr_wrt(inner).T
 
             return self._superdot(result, jac)
 
-- 
2.43.0


From ba9dff49679d3425416c1d130a04ef5f7bda3492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:43 +0000
Subject: [PATCH 12/49] fix: item assignment rounded values when the data were
 integers

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 9b7bd51..50b0f7d 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -508,7 +508,7 @@ class Ch(object):
         if hasattr(value, 'dterms'):
             raise Exception("Can't assign a Ch objects as a subset of another.")
         if type(self) == Ch:# self.is_ch_baseclass():
-            data = np.atleast_1d(self.x)
+            data = np.array(np.atleast_1d(self.x), dtype=np.float64)
             data.__setitem__(key, value)
             self.__setattr__('x', data, itr=itr)
             return
-- 
2.43.0


From 3134d6dda7c4195805b6431ed8fbbaf18f8ee348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:53 +0000
Subject: [PATCH 13/49] fix: derivatives of single-element expressions failed
 when only one of several paths was sparse

---
 chumpy/ch.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 50b0f7d..7675f49 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -55,6 +55,16 @@ def _check_kw_conflict(cls):
         raise Exception("In class %s, don't use reserved keywords in terms/dterms: %s" % (str(cls), str(kw_conflict),))
 
 
+def _add_drs(lhs, rhs):
+    # A plain number stands for a multiple of the identity, and
+    # cannot be added to a sparse matrix as it is
+    if sp.issparse(lhs) and np.ndim(rhs) == 0:
+        rhs = float(rhs) * sp.eye(*lhs.shape)
+    elif sp.issparse(rhs) and np.ndim(lhs) == 0:
+        lhs = float(lhs) * sp.eye(*rhs.shape)
+    return lhs + rhs
+
+
 class Term(object):
     creation_counter = 0
     def __init__(self, default=None, desc=None, dr=True):
@@ -682,7 +692,7 @@ class Ch(object):
             result = drs[0]
 
         else:
-            result = reduce(lambda x, y: x+y, drs)
+            result = reduce(_add_drs, drs)
 
         return result
         
@@ -804,7 +814,7 @@ class Ch(object):
             # TODO: ????????
             # result = np.sum(x for x in drs)
             if not np.any([isinstance(a, LinearOperator) for a in drs]):
-                result = reduce(lambda x, y: x+y, drs)
+                result = reduce(_add_drs, drs)
             else:
                 result = LinearOperator(drs[0].shape, lambda x : reduce(lambda a, b: a.dot(x)+b.dot(x),drs))
 
-- 
2.43.0


From 30cc36fe42b29538291390c467c4e554a3701907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:13 +0000
Subject: [PATCH 14/49] fix: an interrupted change of a term left the
 expression cut off from its input

The link to the old input was removed before the new input was stored, so an
interrupt (or a failure) in between left the old input in force without a way
to invalidate the expression. Link first, store, unlink last.
---
 chumpy/ch.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 7675f49..046d5ec 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -387,20 +387,18 @@ class Ch(object):
         name_in_dterms = name in self.dterms
         name_in_terms = name in self.terms
         name_in_props = name in _props_for(self.__class__)# [p[0] for p in inspect.getmembers(self.__class__, lambda x : isinstance(x, property))]
+        old_value = None
         
         if name_in_dterms and not name_in_props and type(self) != Ch:
             if not hasattr(value, 'dterms'):
                 value = Ch(value)                
         
-            # Make ourselves not the parent of the old value
             if hasattr(self, name):
-                term = getattr(self, name)
-                if self in term._parents:
-                    term._parents[self]['varnames'].remove(name)
-                    if len(term._parents[self]['varnames']) == 0:
-                        del term._parents[self]
-                    
-            # Make ourselves parents of the new value
+                old_value = getattr(self, name)
+
+            # Make ourselves parents of the new value. The old value keeps us as
+            # a parent until it is no longer in use: an interrupt must not leave
+            # us with a value that does not tell us about its changes.
             if self not in value._parents:
                 value._parents[self] = {'varnames': set([name])}
             else:
@@ -415,6 +413,12 @@ class Ch(object):
             self.clear_cache(itr)
             
         object.__setattr__(self, name, value)
+
+        # Make ourselves not the parent of the old value
+        if old_value is not None and old_value is not value and self in old_value._parents:
+            old_value._parents[self]['varnames'].discard(name)
+            if len(old_value._parents[self]['varnames']) == 0:
+                del old_value._parents[self]
           
     def _invalidate_cacheprop_names(self, names):
         nameset = set(names)
-- 
2.43.0


From a47f9ef9a886bd4d5d767020227e36e0692bfb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:45 +0000
Subject: [PATCH 15/49] fix: an interrupted read could return an earlier value
 from then on

_cache['r'] was filled before _cache['rview'], so an interrupt in between left
the previous view in place under a cache marked as valid.
---
 chumpy/ch.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 046d5ec..8d2cf1c 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -607,9 +607,12 @@ class Ch(object):
     def r(self):
         self._call_on_changed()
         if self._cache['r'] is None:
-            self._cache['r'] = np.asarray(np.atleast_1d(self.compute_r()), dtype=np.float64, order='C')
-            self._cache['rview'] = self._cache['r'].view()
-            self._cache['rview'].flags.writeable = False
+            result = np.asarray(np.atleast_1d(self.compute_r()), dtype=np.float64, order='C')
+            rview = result.view()
+            rview.flags.writeable = False
+            # The presence of 'r' vouches for 'rview', so it has to come last
+            self._cache['rview'] = rview
+            self._cache['r'] = result
         
         return self._cache['rview']
 
-- 
2.43.0


From f25dc7591f172d1f7474d42d72885afaff368e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:45 +0000
Subject: [PATCH 16/49] fix: set() with several terms could leave expressions
 stale

All but the last change were marked with the same constant, and nodes that
still carried the mark from an earlier call that was cut short by an exception
were skipped during invalidation.
---
 chumpy/ch.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 8d2cf1c..3e34bf9 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -488,12 +488,10 @@ class Ch(object):
         kwfirst = kwarg_keys.difference(kwsecond)
         kwall = list(kwfirst) + list(kwsecond)
 
-        # The complexity here comes because we wish to
-        # avoid clearing cache redundantly
-        if len(kwall) > 0:
-            for k in kwall[:-1]:
-                self.__setattr__(k, kwargs[k], 9999)
-            self.__setattr__(kwall[-1], kwargs[kwall[-1]], None)
+        # Every change has to clear the caches by itself: one of
+        # them may fail, and the earlier ones are then in force
+        for k in kwall:
+            setattr(self, k, kwargs[k])
             
 
     def is_dr_wrt(self, wrt):
-- 
2.43.0


From 08c4379fc6d9331abae886e171883e39e8408d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:45 +0000
Subject: [PATCH 17/49] fix: remove_redundancy cut expressions off from later
 changes and merged variables

Merged terms were written straight into __dict__, so the surviving term did not
know its new parent and did not invalidate it. Distinct variables that happened
to hold the same array were merged as well.
---
 chumpy/ch.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 3e34bf9..91564c1 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -240,12 +240,15 @@ class Ch(object):
 
             if not hasattr(prop, 'dterms'):
                 continue
-            sid = prop.sid
-            if sid not in cache:
-                cache[sid] = prop
-            elif self.__dict__[propname] is not cache[sid]:
-                self.__dict__[propname] = cache[sid]
-                replacement_occurred = True
+            # Variables and handles are places to put data: equal
+            # content does not make them redundant
+            if not isinstance(prop, ChHandle) and not prop.is_ch_baseclass():
+                sid = prop.sid
+                if sid not in cache:
+                    cache[sid] = prop
+                elif prop is not cache[sid]:
+                    setattr(self, propname, cache[sid])
+                    replacement_occurred = True
             if prop.remove_redundancy(cache, iterate=False):
                 replacement_occurred = True
                 
-- 
2.43.0


From ebbe70f5aa8ca4ffa9edfec35a6dfe8845364cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:00 +0000
Subject: [PATCH 18/49] fix: derivative of concatenate stayed wrong after a
 failure part-way

The index table was stored before its axes were swapped; a failure in between
(out of memory, interrupt) left the unswapped table to be used from then on.
---
 chumpy/reordering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index d35de08..7982210 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -387,8 +387,8 @@ class Concatenate(Ch):
     @property
     def everything(self):
         if not hasattr(self, '_everything'):
-            self._everything = np.arange(self.r.size).reshape(self.r.shape)
-            self._everything = np.swapaxes(self._everything, self.axis, 0)
+            everything = np.arange(self.r.size).reshape(self.r.shape)
+            self._everything = np.swapaxes(everything, self.axis, 0)
         return self._everything
     
     def compute_dr_wrt(self, wrt):
-- 
2.43.0


From d742d38fafb08325a127dd347c4f95eadf0038e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:02 +0000
Subject: [PATCH 19/49] fix: minimizing over two slices of a variable used
 stale residuals

All free variables of one step were changed under the same mark, so the change
of the second slice did not invalidate what had been read after the first one.
The mark was also a process-wide counter that threads could make repeat.
---
 chumpy/optimization_internal.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index 1043633..b1b8953 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -20,7 +20,6 @@ def hstack(x):
     return sp.hstack(x, format='csc') if any([sp.issparse(a) for a in x]) else np.hstack(x)
 
 
-_giter = 0
 class ChInputsStacked(ch.Ch):
     dterms = 'x', 'obj'
     terms = 'free_variables'
@@ -71,8 +70,6 @@ class ChInputsStacked(ch.Ch):
             return J
 
     def on_changed(self, which):
-        global _giter
-        _giter += 1
         if 'x' in which:
             pos = 0
             for idx, freevar in enumerate(self.free_variables):
@@ -90,11 +87,11 @@ class ChInputsStacked(ch.Ch):
                     while len(selects) > 0:
                         idxs = idxs[selects.pop()]
                     newv.ravel()[idxs] = self.x.r.ravel()[rng]
-                    a.__setattr__('x', newv, _giter)
+                    a.x = newv
                 elif isinstance(self.free_variables[idx].x, np.ndarray):
-                    self.free_variables[idx].__setattr__('x', self.x.r[rng].copy().reshape(self.free_variables[idx].x.shape), _giter)
+                    self.free_variables[idx].x = self.x.r[rng].copy().reshape(self.free_variables[idx].x.shape)
                 else: # a number
-                    self.free_variables[idx].__setattr__('x', self.x.r[rng], _giter)
+                    self.free_variables[idx].x = self.x.r[rng]
                 pos += sz
 
     @property
-- 
2.43.0


From 17750a91dbf11cbb4d53e139d440f36687df7650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:16 +0000
Subject: [PATCH 20/49] fix: dogleg never stopped when an evaluation or a step
 was not a number

A trial evaluation that is NaN has a NaN rho, for which updateRadius kept the
trust region as it was, so the same trial was repeated for ever; and a radius
that is NaN or infinite (estimated from a failed linear solve) never fell below
the threshold.
---
 chumpy/optimization_internal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index b1b8953..04b5e98 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -348,7 +348,7 @@ class DoglegState(object):
     def updateRadius(self, rho, lb=.05, ub=.9):
         if rho > ub:
             self.delta = max(self.delta, 2.5*np.linalg.norm(self.d_dl))
-        elif rho < lb:
+        elif not rho >= lb: # includes NaN
             self.delta *= .25
 
 
@@ -441,7 +441,7 @@ def minimize_dogleg(obj, free_variables, on_step=None,
                     obj.on_changed('x') # copies from flat vector to free variables
                 # update our trust region
                 state.updateRadius(trial.rho)
-                if state.delta <= e_2*np.linalg.norm(state.p):
+                if not e_2*np.linalg.norm(state.p) < state.delta < np.inf: # includes NaN
                     stop('stopping because trust region is too small')
             if state.done or trial.is_improvement or (obj.fevals >= max_fevals):
                 break
-- 
2.43.0


From 64807a2a2453945c2e310155ce9a5852c504a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:52 +0000
Subject: [PATCH 21/49] fix: dogleg gave up when a dense solve yielded NaN or
 Inf

The sparse path already falls back to least squares for a step that is not
finite; the dense path used it, so that with the default initial radius the
minimization ended where it started.
---
 chumpy/optimization_internal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index 04b5e98..9027c2e 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -290,6 +290,8 @@ class DoglegState(object):
             pif('dense solve...')
             try:
                 self.d_gn = np.linalg.solve(self.A, self.g).ravel()
+                if not np.all(np.isfinite(self.d_gn)):
+                    raise np.linalg.LinAlgError('solution is not finite')
             except Exception:
                 warnings.warn("dense solve failed, falling back to lsqr")
                 self.d_gn = np.linalg.lstsq(self.A, self.g)[0].ravel()
-- 
2.43.0


From 8849ccaa0fa503ac48986a09dae1ed2efa37d4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:42 +0000
Subject: [PATCH 22/49] fix: dogleg over a slice of an integer variable rounded
 every step

---
 chumpy/optimization_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index 9027c2e..fa7d095 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -82,7 +82,7 @@ class ChInputsStacked(ch.Ch):
                     while isinstance(a, ch.Select):
                         selects.append(a.idxs)
                         a = a.a
-                    newv = a.x.copy()
+                    newv = a.x.astype(np.result_type(a.x, self.x.r)) # integers would round
                     idxs = selects.pop()
                     while len(selects) > 0:
                         idxs = idxs[selects.pop()]
-- 
2.43.0


From 1c6a5b520f8e7c72adf219bdd94369dddac91245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:48 +0000
Subject: [PATCH 23/49] fix: methods that use the Hessian failed with a
 NameError

---
 chumpy/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index 4f68b65..5dafc8f 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -13,7 +13,7 @@ from . import ch
 import scipy.sparse as sp
 import scipy.optimize
 
-from .optimization_internal import minimize_dogleg
+from .optimization_internal import minimize_dogleg, hstack
 
 #from memory_profiler import profile, memory_usage
 
-- 
2.43.0


From bff86af2e4a6b099f8a4351643edb7d6a18a5e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:26 +0000
Subject: [PATCH 24/49] fix: solvers were answered for an earlier point around
 non-finite points

A difference that is NaN compares as no change, so the variables were not moved
to (or away from) a point with a NaN, nor to one with an infinity they already
held, and memoized Hessians were reused.
---
 chumpy/optimization.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index 5dafc8f..e5e71f7 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -61,7 +61,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
             changevars(vs,obj,obj_scalar,free_variables)
             if not hasattr(hessp, 'vs'):
                 hessp.vs = vs*0+1e16
-            if np.max(np.abs(vs-hessp.vs)) > 0:
+            if not np.array_equal(vs, hessp.vs):
 
                 J = ns_jacfunc(vs,obj,obj_scalar,free_variables)
                 hessp.J = J
@@ -75,7 +75,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
                 changevars(vs,obj,obj_scalar,free_variables)
                 if not hasattr(hessp, 'vs'):
                     hessp.vs = vs*0+1e16
-                if np.max(np.abs(vs-hessp.vs)) > 0:
+                if not np.array_equal(vs, hessp.vs):
                     J = ns_jacfunc(vs,obj,obj_scalar,free_variables)
                     hessp.H = 2. * J.T.dot(J)
                 return hessp.H
@@ -86,7 +86,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
         for idx, freevar in enumerate(free_variables):
             sz = freevar.r.size
             newvals = vs[cur:cur+sz].copy().reshape(free_variables[idx].shape)
-            if np.max(np.abs(newvals-free_variables[idx]).ravel()) > 0:
+            if not np.array_equal(newvals, free_variables[idx].r):
                 free_variables[idx][:] = newvals
                 changed = True
 
@@ -106,7 +106,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
     def scalar_jacfunc(vs,obj, obj_scalar, free_variables):
         if not hasattr(scalar_jacfunc, 'vs'):
             scalar_jacfunc.vs = vs*0+1e16
-        if np.max(np.abs(vs-scalar_jacfunc.vs)) == 0:
+        if np.array_equal(vs, scalar_jacfunc.vs):
             return scalar_jacfunc.J
             
         changevars(vs, obj, obj_scalar, free_variables)
@@ -127,7 +127,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
     def ns_jacfunc(vs,obj, obj_scalar, free_variables):
         if not hasattr(ns_jacfunc, 'vs'):
             ns_jacfunc.vs = vs*0+1e16
-        if np.max(np.abs(vs-ns_jacfunc.vs)) == 0:
+        if np.array_equal(vs, ns_jacfunc.vs):
             return ns_jacfunc.J
             
         changevars(vs, obj, obj_scalar, free_variables)
-- 
2.43.0


From 0ff782725dad4da1c45317f17cd570a0ee05817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:26 +0000
Subject: [PATCH 25/49] fix: solvers could be given the gradient or Hessian of
 an earlier point

The point a memo belongs to was kept by reference, so a solver that reuses its
array for the next point got the memoized answer; and a Hessian computed by
hess() was later taken for that of the point hessp() had been asked about.
---
 chumpy/optimization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index e5e71f7..9efa8e1 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -66,7 +66,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
                 J = ns_jacfunc(vs,obj,obj_scalar,free_variables)
                 hessp.J = J
                 hessp.H = 2. * J.T.dot(J)
-                hessp.vs = vs
+                hessp.vs = vs.copy()
             return np.array(hessp.H.dot(p)).ravel()
             #return 2*np.array(hessp.J.T.dot(hessp.J.dot(p))).ravel()
             
@@ -78,6 +78,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
                 if not np.array_equal(vs, hessp.vs):
                     J = ns_jacfunc(vs,obj,obj_scalar,free_variables)
                     hessp.H = 2. * J.T.dot(J)
+                    hessp.vs = vs.copy()
                 return hessp.H
         
     def changevars(vs, obj, obj_scalar, free_variables):
@@ -121,7 +122,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
             result = np.concatenate([jac.ravel() for jac in jacs])
 
         scalar_jacfunc.J = result
-        scalar_jacfunc.vs = vs
+        scalar_jacfunc.vs = vs.copy()
         return result.ravel()
         
     def ns_jacfunc(vs,obj, obj_scalar, free_variables):
@@ -135,7 +136,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
         result = hstack(jacs)
 
         ns_jacfunc.J = result
-        ns_jacfunc.vs = vs
+        ns_jacfunc.vs = vs.copy()
         return result
 
         
-- 
2.43.0


From 80ec7b3f6c1eb3eb0714621f4f7a06da48f035fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:11 +0000
Subject: [PATCH 26/49] fix: assigning through a view kept NaN, Inf and
 rounding errors of the old data

The new data were computed as old + new - old, which stays NaN once an element
is NaN or Inf and loses digits of the new value next to a large old one.
---
 chumpy/ch.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 91564c1..af38d63 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -548,17 +548,11 @@ class Ch(object):
 
             self = self[key]
             dr = self.dr_wrt(inner)
-            dr_rev = dr.T
-            #dr_rev = np.linalg.pinv(dr)
-            inner_shape = inner.shape
-
-            t1 = self._superdot(dr_rev, np.asarray(value).ravel())
-            t2 = self._superdot(dr_rev, self._superdot(dr, inner.x.ravel()))
-            if sp.issparse(t1): t1 = np.array(t1.todense())
-            if sp.issparse(t2): t2 = np.array(t2.todense())
-
-            inner.x = inner.x + t1.reshape(inner_shape) - t2.reshape(inner_shape)
-            #inner.x = inner.x + self._superdot(dr_rev, value.ravel()).reshape(inner_shape) - self._superdot(dr_rev, self._superdot(dr, inner.x.ravel())).reshape(inner_shape)
+            # each of our elements is one element of inner
+            idxs = np.asarray(dr.dot(np.arange(inner.size))).ravel().astype(int)
+            data = np.array(inner.x, dtype=np.float64, order='C')
+            data.ravel()[idxs] = np.asarray(value).ravel()
+            inner.x = data
 
 
     def __str__(self):
-- 
2.43.0


From 5ed10dfbf17f233f2d995ea715133d9a2900d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:57 +0000
Subject: [PATCH 27/49] fix: copying or saving a ChLambda removed the function
 from the original

---
 chumpy/ch.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index af38d63..85b5595 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1291,9 +1291,10 @@ class ChLambda(Ch):
         
     def __getstate__(self):
         # Have to get rid of lambda for serialization
-        if hasattr(self, 'lmb'):
-            self.lmb = None
-        return super(self.__class__, self).__getstate__()
+        result = super(ChLambda, self).__getstate__()
+        if 'lmb' in result:
+            result['lmb'] = None
+        return result
         
         
     def compute_r(self):
-- 
2.43.0


From 8b5b25becac4bfd592b0faae0ed799f1341cb332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:02 +0000
Subject: [PATCH 28/49] fix: graphs saved with pickle protocol 0 or 1 loaded
 without links in a new process

These protocols bypass Ch.__new__, so classes not used before kept their terms
as declared (a plain string, say), and the loaded nodes were neither connected
to their inputs for later changes nor differentiable.
---
 chumpy/ch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 85b5595..ce7d4f3 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -362,6 +362,9 @@ class Ch(object):
         return result
 
     def __setstate__(self, d):
+        # Old pickle protocols create instances without calling __new__
+        self.setup_terms()
+
         # Restore unpickleable WeakKeyDictionaries
         d['_parents'] = weakref.WeakKeyDictionary()
         d['_cache'] = {'r': None, 'drs': weakref.WeakKeyDictionary()}
-- 
2.43.0


From b2e8fe072407009b7340bde8d6fe110e6e9c68e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:24 +0000
Subject: [PATCH 29/49] fix: two threads using an operation for the first time
 could break it

---
 chumpy/ch.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index ce7d4f3..2afd3cf 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -160,14 +160,17 @@ class Ch(object):
 
         parm_declarations = cls.parm_declarations()
 
-        if cls.dterms is Ch.dterms:
+        # Another thread may be here for the same class: look at each
+        # attribute only once before replacing it
+        dterms, terms = cls.dterms, cls.terms
+        if dterms is Ch.dterms:
             cls.dterms = []
-        elif isinstance(cls.dterms, str):
-            cls.dterms = (cls.dterms,)
-        if cls.terms is Ch.terms:
+        elif isinstance(dterms, str):
+            cls.dterms = (dterms,)
+        if terms is Ch.terms:
             cls.terms = []
-        elif isinstance(cls.terms, str):
-            cls.terms = (cls.terms,)
+        elif isinstance(terms, str):
+            cls.terms = (terms,)
 
         # Must be either new or old style
         len_oldstyle_parms = len(cls.dterms)+len(cls.terms)
-- 
2.43.0


From 86a80c409d1d093cfad8f1c3b36d22565eed85ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:07 +0000
Subject: [PATCH 30/49] fix: a type derived from one that was used before could
 not be given all its inputs by position

---
 chumpy/ch.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 2afd3cf..3bc8cc0 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -78,6 +78,10 @@ class Term(object):
         Term.creation_counter += 1
 
 
+class _MadeUpOrder(list):
+    """Order of the terms of a class that does not specify one"""
+
+
 class Ch(object):
     terms = []
     dterms = ['x']
@@ -180,8 +184,9 @@ class Ch(object):
             cls.dterms = [t.name for t in parm_declarations if t.dr]
             cls.terms = [t.name for t in parm_declarations if not t.dr]
         else:
-            if not hasattr(cls, 'term_order'):
-                cls.term_order = list(cls.terms) + list(cls.dterms)
+            # An order that was made up for a base class does not apply to us
+            if isinstance(getattr(cls, 'term_order', None), (type(None), _MadeUpOrder)):
+                cls.term_order = _MadeUpOrder(list(cls.terms) + list(cls.dterms))
 
         _check_kw_conflict(cls)
         cls._setup_terms[id(cls)] = True
-- 
2.43.0


From 13477b43dfdc3c6bccaacbad3787a4bf2474d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 31/49] fix: a node type could not be used if it took the
 address of a type that was used before

---
 chumpy/ch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 3bc8cc0..74709db 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -87,7 +87,7 @@ class Ch(object):
     dterms = ['x']
     __array_priority__ = 2.0
     _cached_parms = {}
-    _setup_terms = {}
+    _setup_terms = weakref.WeakKeyDictionary()
     _default_kwargs = {'make_dense' : False, 'make_sparse' : False}
     _status = "undefined"
     
@@ -157,7 +157,7 @@ class Ch(object):
 
     @classmethod
     def setup_terms(cls):
-        if id(cls) in cls._setup_terms: return
+        if cls in cls._setup_terms: return
 
         if cls == Ch:
             return
@@ -189,7 +189,7 @@ class Ch(object):
                 cls.term_order = _MadeUpOrder(list(cls.terms) + list(cls.dterms))
 
         _check_kw_conflict(cls)
-        cls._setup_terms[id(cls)] = True
+        cls._setup_terms[cls] = True
 
 
     ########################################################
-- 
2.43.0


From c7eb52457fc627e41b62085cd2931e470390fa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:38 +0000
Subject: [PATCH 32/49] fix: turning DEBUG on made derivatives of existing
 expressions fail

---
 chumpy/ch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 74709db..796456a 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -771,6 +771,8 @@ class Ch(object):
 
         if wrt in self._cache['drs']:
             if DEBUG:
+                if not hasattr(self, '_cache_info'): # made before DEBUG was turned on
+                    object.__setattr__(self, '_cache_info', {})
                 if wrt not in self._cache_info:
                     self._cache_info[wrt] = 0
                 self._cache_info[wrt] +=1
-- 
2.43.0


From df6efe0d042fede09e46ca2dabadd7d2b762b840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:06 +0000
Subject: [PATCH 33/49] fix: in DEBUG mode a failed product of derivatives was
 taken for zero

---
 chumpy/ch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 796456a..ff98086 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -664,8 +664,7 @@ class Ch(object):
             traceback.print_exc(file=sys.stdout)
             if DEBUG:
                 import pdb; pdb.post_mortem()
-            else:
-                raise
+            raise
             
     def lmult_wrt(self, lhs, wrt):
         if lhs is None:
-- 
2.43.0


From 1d5f9ff83280c0514dcd2c671098e86ec56c375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:40 +0000
Subject: [PATCH 34/49] fix: expressions using a ChLambda were notified again
 although nothing had changed

---
 chumpy/ch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index ff98086..cfb64ea 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1283,7 +1283,8 @@ class ChLambda(Ch):
 
     def on_changed(self, which):
         for argname in set(which).intersection(set(self.args.keys())):
-            self.args[argname].x = getattr(self, argname)
+            if self.args[argname].x is not getattr(self, argname):
+                self.args[argname].x = getattr(self, argname)
     
     def __init__(self, lmb, initial_args=None):
         args = {argname: ChHandle(x=Ch(idx)) for idx, argname in enumerate(inspect.getargspec(lmb)[0])}
-- 
2.43.0


From ade6e290d2c343234a0c331ea727f6ee10eb3712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:56 +0000
Subject: [PATCH 35/49] fix: derivatives of extrema along an axis were wrong or
 failed for some arrays with an axis of length 1

---
 chumpy/ch_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 9d41de4..d3dc51e 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -648,7 +648,7 @@ class A_extremum(Ch):
             # np.amin here probably
             idxs = np.arange(mtx.size).reshape(mtx.shape)
             mn = np.amin(idxs, axis=axis)
-            mtx_strides = np.array(mtx.strides)
+            mtx_strides = np.array(idxs.strides) # those of mtx say nothing about axes of length 1
             stride = mtx_strides / np.min(mtx_strides) # go from bytes to num elements
             stride = stride[axis]
         return mn, stride
-- 
2.43.0


From c4d8cd166a4c48e5b98df1e6d1b65e8662384874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:56 +0000
Subject: [PATCH 36/49] fix: replacing an input by something made from it made
 the expression refer to itself

---
 chumpy/ch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index cfb64ea..e637f21 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -487,7 +487,8 @@ class Ch(object):
             term = getattr(self, term_name)
             if term is old:
                 setattr(self, term_name, new)
-            elif hasattr(term, 'dterms'):
+            # "new" may be made from "old", which then stays part of it
+            elif hasattr(term, 'dterms') and term is not new:
                 term.replace(old, new)
         return new
   
-- 
2.43.0


From 4f64a8c53033f8af2641958972c01685bba68194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:52 +0000
Subject: [PATCH 37/49] fix: derivatives given as a LinearOperator could not be
 combined with others

Sums with more than two parts multiplied the parts with each other, sums
below the top level, left products and slices of free variables failed.
---
 chumpy/ch.py                    | 16 ++++++++++------
 chumpy/optimization_internal.py |  2 ++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index e637f21..f280f61 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -58,6 +58,11 @@ def _check_kw_conflict(cls):
 def _add_drs(lhs, rhs):
     # A plain number stands for a multiple of the identity, and
     # cannot be added to a sparse matrix as it is
+    if isinstance(lhs, LinearOperator) or isinstance(rhs, LinearOperator):
+        shape = lhs.shape if isinstance(lhs, LinearOperator) else rhs.shape
+        def product(dr, x):
+            return dr.dot(x) if np.ndim(dr) > 0 or isinstance(dr, LinearOperator) else dr * x
+        return LinearOperator(shape, lambda x : product(lhs, x) + product(rhs, x))
     if sp.issparse(lhs) and np.ndim(rhs) == 0:
         rhs = float(rhs) * sp.eye(*lhs.shape)
     elif sp.issparse(rhs) and np.ndim(lhs) == 0:
@@ -713,7 +718,9 @@ class Ch(object):
     def compute_lop(self, wrt, lhs):
         dr = self._compute_dr_wrt_sliced(wrt)
         if dr is None: return None
-        return self._superdot(lhs, dr) if not isinstance(lhs, LinearOperator) else lhs.matmat(dr)
+        if isinstance(dr, LinearOperator):
+            dr = dr.dot(np.eye(dr.shape[1])) # what is to the right of it can be anything
+        return self._superdot(lhs, dr)
         
         
     def lop(self, wrt, lhs):
@@ -808,7 +815,7 @@ class Ch(object):
                         tm_dr_wrt.pause()
                         dr2 = p.dr_wrt(wrt)
                         tm_dr_wrt.resume()
-                        indirect_dr = lhs.matmat(dr2) if dr2 is not None else None
+                        indirect_dr = self._superdot(lhs, dr2)
                     else:
                         indirect_dr = p.lmult_wrt(lhs, wrt)
                 else: # forward mode
@@ -828,10 +835,7 @@ class Ch(object):
         else:
             # TODO: ????????
             # result = np.sum(x for x in drs)
-            if not np.any([isinstance(a, LinearOperator) for a in drs]):
-                result = reduce(_add_drs, drs)
-            else:
-                result = LinearOperator(drs[0].shape, lambda x : reduce(lambda a, b: a.dot(x)+b.dot(x),drs))
+            result = reduce(_add_drs, drs)
 
         # TODO: figure out how/whether to do this.
         if result is not None and not sp.issparse(result):
diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index fa7d095..4c7801c 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -40,6 +40,8 @@ class ChInputsStacked(ch.Ch):
                 tm = timer()
                 if isinstance(freevar, ch.Select):
                     new_jac = self.obj.dr_wrt(freevar.a, profiler=profiler)
+                    if isinstance(new_jac, sp.linalg.interface.LinearOperator):
+                        new_jac = new_jac.dot(np.eye(new_jac.shape[1]))
                     try:
                         new_jac = new_jac[:, freevar.idxs]
                     except:
-- 
2.43.0


From 61d6322d9f326d356e3cc378591709afb841207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:12 +0000
Subject: [PATCH 38/49] fix: make_sparse failed where there is no derivative

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index f280f61..c5e8c8e 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -873,7 +873,7 @@ class Ch(object):
         
         if getattr(self, '_make_dense', False) and sp.issparse(result):
             result = result.todense()
-        if getattr(self, '_make_sparse', False) and not sp.issparse(result):
+        if getattr(self, '_make_sparse', False) and result is not None and not sp.issparse(result):
             result = sp.csc_matrix(result)
         
         if tm_dr_wrt() > 0.1:
-- 
2.43.0


From 2ab9d460cdcdad262e3e3d6b898a700274586df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:31 +0000
Subject: [PATCH 39/49] fix: a rejected add_dterm made derivatives of the
 expression fail

The name was listed although nothing had been stored under it.  Reverse mode
and left products now also cope with listed names that are not set (yet) and
with aliases, as forward mode does.
---
 chumpy/ch.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index c5e8c8e..1a48dce 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -249,7 +249,7 @@ class Ch(object):
             
         replacement_occurred = False
         for propname in list(self.dterms):
-            prop = self.__dict__[propname]
+            prop = self.__dict__.get(propname)
 
             if not hasattr(prop, 'dterms'):
                 continue
@@ -361,6 +361,8 @@ class Ch(object):
     # State management
 
     def add_dterm(self, dterm_name, dterm):
+        if not hasattr(dterm, 'dterms'):
+            dterm = Ch(dterm)
         self.dterms = list(set(list(self.dterms) + [dterm_name]))
         setattr(self, dterm_name, dterm)
     
@@ -687,7 +689,7 @@ class Ch(object):
 
         children_done = []
         for k in set(self.dterms):
-            p = self.__dict__[k]
+            p = getattr(self, k, None)
 
             # The derivative wrt a child covers all the terms it is used for
             if any(p is c for c in children_done):
@@ -733,7 +735,7 @@ class Ch(object):
 
         children_done = []
         for k in set(self.dterms):
-            p = getattr(self, k) # self.__dict__[k]
+            p = getattr(self, k, None)
 
             # The derivative wrt a child covers all the terms it is used for
             if any(p is c for c in children_done):
-- 
2.43.0


From 29d6060ac29e63304f0c6af86f6a69d906230b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:59 +0000
Subject: [PATCH 40/49] fix: a number given as a derivative was added to every
 entry of a dense one

---
 chumpy/ch.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 1a48dce..c1e6861 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -57,16 +57,19 @@ def _check_kw_conflict(cls):
 
 def _add_drs(lhs, rhs):
     # A plain number stands for a multiple of the identity, and
-    # cannot be added to a sparse matrix as it is
+    # cannot be added to a matrix as it is
     if isinstance(lhs, LinearOperator) or isinstance(rhs, LinearOperator):
         shape = lhs.shape if isinstance(lhs, LinearOperator) else rhs.shape
         def product(dr, x):
             return dr.dot(x) if np.ndim(dr) > 0 or isinstance(dr, LinearOperator) else dr * x
         return LinearOperator(shape, lambda x : product(lhs, x) + product(rhs, x))
-    if sp.issparse(lhs) and np.ndim(rhs) == 0:
-        rhs = float(rhs) * sp.eye(*lhs.shape)
-    elif sp.issparse(rhs) and np.ndim(lhs) == 0:
-        lhs = float(lhs) * sp.eye(*rhs.shape)
+    if np.ndim(rhs) == 0 and not sp.issparse(rhs):
+        lhs, rhs = rhs, lhs
+    if np.ndim(lhs) == 0 and not sp.issparse(lhs):
+        if sp.issparse(rhs):
+            lhs = float(lhs) * sp.eye(*rhs.shape)
+        elif np.ndim(rhs) == 2:
+            lhs = float(lhs) * np.eye(*rhs.shape)
     return lhs + rhs
 
 
-- 
2.43.0


From 24ee62933b6be84cddd467e60c3110e0e6f7ca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:22 +0000
Subject: [PATCH 41/49] fix: replace reached inputs a lambda expression no
 longer has

---
 chumpy/ch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index c1e6861..d43604b 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1311,6 +1311,11 @@ class ChLambda(Ch):
                 setattr(self, argname, arg.x)
         self.args = args
         self.add_dterm('_result', result)
+
+    def replace(self, old, new):
+        # The handles inside may still lead to arguments we no longer have
+        self._call_on_changed()
+        return super(ChLambda, self).replace(old, new)
         
     def __getstate__(self):
         # Have to get rid of lambda for serialization
-- 
2.43.0


From 62c3756a8f4208dd9a4c1ee662dbca652db36483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:05 +0000
Subject: [PATCH 42/49] fix: make_sparse failed for a LinearOperator

---
 chumpy/ch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index d43604b..7eac9ad 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -879,6 +879,8 @@ class Ch(object):
         if getattr(self, '_make_dense', False) and sp.issparse(result):
             result = result.todense()
         if getattr(self, '_make_sparse', False) and result is not None and not sp.issparse(result):
+            if isinstance(result, LinearOperator):
+                result = result.dot(np.eye(result.shape[1]))
             result = sp.csc_matrix(result)
         
         if tm_dr_wrt() > 0.1:
-- 
2.43.0


From b9f6563b3e255cd0afa0630bfc4480b74c8afede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:48 +0000
Subject: [PATCH 43/49] fix: minimizing failed where all derivatives vanish

---
 chumpy/optimization_internal.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index 4c7801c..6ce1241 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -309,7 +309,6 @@ class DoglegState(object):
             tm2 = timer()
             self.J = self.J.tocsr()
             pif('converted to csr in {}secs'.format(tm2()))
-            assert(self.J.nnz > 0)
         elif ch.VERBOSE:
             nonzero = np.count_nonzero(self.J)
             pif('Jacobian dense with sparsity %.3f' % (nonzero/self.J.size))
-- 
2.43.0


From 7c70331e51f67e94c0d0c22e4456c2e4a48428d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 44/49] fix: print_labeled_residuals failed for an input that
 is not set

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 7eac9ad..d0b3dc5 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -286,7 +286,7 @@ class Ch(object):
         if hasattr(self, 'label'):
             where_to_print.write(('%s: %.' + str(num_decimals) + 'e | ') % (self.label, np.sum(self.r**2)))
         for dterm in self.dterms:
-            dt = getattr(self, dterm)            
+            dt = getattr(self, dterm, None) # not all have to be set
             if hasattr(dt, 'dterms'):
                 dt.print_labeled_residuals(print_newline=False, where_to_print=where_to_print)            
         if print_newline:
-- 
2.43.0


From e59c509748823d670a645b0b3001aaf6b4d36ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 45/49] fix: wrong derivatives of dot where the second operand
 has more than two dimensions

---
 chumpy/ch_ops.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index d3dc51e..7c72288 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -734,7 +734,7 @@ class dot(Ch):
     def compute_d1(self):
         # To stay consistent with numpy, we must upgrade 1D arrays to 2D
         ar = row(self.a.r) if len(self.a.r.shape)<2 else self.a.r.reshape((-1, self.a.r.shape[-1]))
-        br = col(self.b.r) if len(self.b.r.shape)<2 else self.b.r.reshape((self.b.r.shape[0], -1))
+        br = self.as_columns(self.b.r)
 
         if ar.ndim <= 2:
             return sp.kron(sp.eye(ar.shape[0], ar.shape[0]),br.T)
@@ -745,16 +745,25 @@ class dot(Ch):
         
         # To stay consistent with numpy, we must upgrade 1D arrays to 2D
         ar = row(self.a.r) if len(self.a.r.shape)<2 else self.a.r.reshape((-1, self.a.r.shape[-1]))
-        br = col(self.b.r) if len(self.b.r.shape)<2 else self.b.r.reshape((self.b.r.shape[0], -1))
+        br = self.as_columns(self.b.r)
 
         if br.ndim <= 1:
             return self.ar
         elif br.ndim <= 2:
-            return sp.kron(ar, sp.eye(br.shape[1],br.shape[1]))
+            result = sp.kron(ar, sp.eye(br.shape[1],br.shape[1]))
+            if self.b.ndim > 2:
+                # put the columns into the order of the elements of b
+                idxs = self.as_columns(np.arange(self.b.size).reshape(self.b.shape)).ravel()
+                result = result.tocsc()[:, np.argsort(idxs)]
+            return result
         else:
             raise NotImplementedError
-            
-    
+
+    @staticmethod
+    def as_columns(br):
+        # numpy sums over the second-to-last axis of the second operand
+        return col(br) if br.ndim<2 else np.rollaxis(br, -2).reshape((br.shape[-2], -1))
+
     def compute_dr_wrt(self, wrt):
 
         if wrt is self.a and wrt is self.b:
-- 
2.43.0


From 944f4d2effadb20987b5f3dcb43024d8df224944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 46/49] fix: wrong derivatives of det and slogdet of a stack of
 matrices

---
 chumpy/linalg.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/chumpy/linalg.py b/chumpy/linalg.py
index 9838ebd..7d8f9c5 100755
--- a/chumpy/linalg.py
+++ b/chumpy/linalg.py
@@ -116,6 +116,12 @@ class Pinv(Ch):
 
 
 
+def _one_row_per_matrix(mtx):
+    # mtx is a matrix or a stack of them, transposed
+    rows = [row(m.T) for m in mtx.reshape((-1,) + mtx.shape[-2:])]
+    return rows[0] if len(rows) == 1 else sp.block_diag(rows, format='csc')
+
+
 class LogAbsDet(Ch):
     dterms = 'x'
     
@@ -127,7 +133,7 @@ class LogAbsDet(Ch):
         
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:         
-            return row(np.linalg.inv(self.x.r).T)
+            return _one_row_per_matrix(np.linalg.inv(self.x.r))
 
 class SignLogAbsDet(Ch):
     dterms = 'logabsdet',
@@ -148,7 +154,7 @@ class Det(Ch):
 
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:
-            return row(self.r * np.linalg.inv(self.x.r).T)
+            return _one_row_per_matrix(self.r.reshape(self.x.shape[:-2] + (1, 1)) * np.linalg.inv(self.x.r))
 
 
 class Inv(Ch):
-- 
2.43.0


From d9fab797f81e98a52f2f343a2fce0b6d635c1a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:22 +0000
Subject: [PATCH 47/49] fix: derivatives of tile, repeat and roll failed for
 settings that are not hashable

---
 chumpy/reordering.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 7982210..7802755 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -25,6 +25,10 @@ def ravel(a, order='C'):
 
     return reshape(a=a, newshape=(-1,))
 
+def _hashable(setting):
+    # a number, or a list, tuple or array of numbers
+    return tuple(np.ravel(setting))
+
 class Reorder(Permute):
     dterms = 'a',
 
@@ -77,7 +81,7 @@ class Tile(Reorder):
     term_order = 'a', 'reps'
     
     def reorder(self, a): return np.tile(a, self.reps)
-    def unique_reorder_id(self): return (self.a.shape, tuple(self.reps))
+    def unique_reorder_id(self): return (self.a.shape, _hashable(self.reps))
     
 def tile(A, reps):
     return Tile(a=A, reps=reps)
@@ -109,7 +113,7 @@ class Repeat(Reorder):
     terms = 'repeats', 'axis'
     
     def reorder(self, a): return np.repeat(a, self.repeats, self.axis)
-    def unique_reorder_id(self): return (self.a.shape, self.repeats, self.axis)
+    def unique_reorder_id(self): return (self.a.shape, _hashable(self.repeats), self.axis)
 
 def repeat(a, repeats, axis=None):
     return Repeat(a=a, repeats=repeats, axis=axis)
@@ -154,7 +158,7 @@ class Roll(Reorder):
     term_order = 'a', 'shift', 'axis'
     
     def reorder(self, a): return np.roll(a, self.shift, self.axis)
-    def unique_reorder_id(self): return (self.a.shape, self.shift, self.axis)
+    def unique_reorder_id(self): return (self.a.shape, _hashable(self.shift), _hashable(self.axis))
     
 def roll(a, shift, axis=None):
     return Roll(a, shift, axis)
-- 
2.43.0


From 08c6c4f29544f2340f5de5b8a1b6c12f825e512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:28 +0000
Subject: [PATCH 48/49] fix: an interrupt left the setup of cross unusable

---
 chumpy/ch_ops.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 7c72288..66d320d 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -124,17 +124,18 @@ class Cross(Ch):
     
     def _load_crossprod_cache(self, h, w):
         if not hasattr(self, '_w'):
-            self._w = 0
-            self._h = 0
+            self._h = None
+            self._w = None # comes last: its presence vouches for both
 
         if h!=self._h or w!=self._w:
+            self._h = None # until everything is in place
             sz = h*w
             rng = np.arange(sz)
             self._JS = np.repeat(rng.reshape((-1,w)), w, axis=0).ravel()
             self._IS = np.repeat(rng, w)
             self._tiled_identity = np.tile(np.eye(w), (h, 1))
-            self._h = h
             self._w = w
+            self._h = h
             
         return self._tiled_identity, self._IS, self._JS, 
             
-- 
2.43.0


From ab68d2bb28ef7527bb71c47302bb9590fe60659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:47 +0000
Subject: [PATCH 49/49] fix: missing derivatives where nodes below prepare
 themselves during differentiation

---
 chumpy/ch.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index d0b3dc5..5784b4c 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -826,6 +826,12 @@ class Ch(object):
                 else: # forward mode
                     tm_dr_wrt.pause()
                     dr2 = p.dr_wrt(wrt, profiler=profiler)
+                    # What is below may have prepared itself only now, and
+                    # we may have put something else in p's place since
+                    self._call_on_changed()
+                    if getattr(self, k) is not p:
+                        p = getattr(self, k)
+                        dr2 = p.dr_wrt(wrt, profiler=profiler)
                     tm_dr_wrt.resume()
                     if dr2 is not None:
                         indirect_dr = self.compute_rop(p, rhs=dr2)
-- 
2.43.0

