From c09b1b95189ad0398ae54f305d59c89f6b80dedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:09 +0000
Subject: [PATCH 01/30] fix: PSet evolver returned the original set on a second
 persistent()

---
 pyrsistent/_pset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 6247607..2d67178 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -129,10 +129,10 @@ class PSet(Generic[T_co]):
             return self._pmap_evolver.is_dirty()
 
         def persistent(self):
-            if not self.is_dirty():
-                return  self._original_pset
+            if self.is_dirty():
+                self._original_pset = PSet(self._pmap_evolver.persistent())
 
-            return PSet(self._pmap_evolver.persistent())
+            return self._original_pset
 
         def __len__(self):
             return len(self._pmap_evolver)
-- 
2.43.0


From 5039b9a8c09af05a9cd2aad74ef58733aa25da79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:09 +0000
Subject: [PATCH 02/30] fix: CheckedPSet evolver returned the original set on a
 second persistent()

---
 pyrsistent/_checked_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 56146b5..15ec003 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -428,7 +428,7 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or self._destination_class != type(self._original_pset):
-                return self._destination_class(self._pmap_evolver.persistent())
+                self._original_pset = self._destination_class(self._pmap_evolver.persistent())
 
             return self._original_pset
 
-- 
2.43.0


From 8b9ce9052df8eec5622a6779527f2e994b3c9421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:09 +0000
Subject: [PATCH 03/30] fix: CheckedPMap evolver returned the original map on a
 second persistent()

---
 pyrsistent/_checked_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 15ec003..0942f91 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -542,6 +542,6 @@ class CheckedPMap(PMap[KT, VT_co], CheckedType, metaclass=_CheckedMapTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or type(self._original_pmap) != self._destination_class:
-                return self._destination_class(self._buckets_evolver.persistent(), self._size)
+                self._original_pmap = self._destination_class(self._buckets_evolver.persistent(), self._size)
 
             return self._original_pmap
-- 
2.43.0


From 05e5d4465c4b9631a07dd4986d522dea1d5f07a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:09 +0000
Subject: [PATCH 04/30] fix: pdeque() with maxlen 0 kept all its elements

---
 pyrsistent/_pdeque.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 0f25936..4e65a89 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -362,7 +362,7 @@ def pdeque(iterable=(), maxlen=None):
     """
     t = tuple(iterable)
     if maxlen is not None:
-        t = t[-maxlen:]
+        t = t[max(len(t) - maxlen, 0):]
     length = len(t)
     pivot = int(length / 2)
     left = plist(t[:pivot])
-- 
2.43.0


From 5c994f01fe126ba3973c0e39b9523e95d9317dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:35 +0000
Subject: [PATCH 05/30] fix: PDeque slices with bounds outside the deque, or of
 an empty deque, were wrong

---
 pyrsistent/_pdeque.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 4e65a89..a56baea 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -323,13 +323,8 @@ class PDeque(Generic[T_co]):
                 # Too difficult, no structural sharing possible
                 return pdeque(tuple(self)[index], maxlen=self._maxlen)
 
-            result = self
-            if index.start is not None:
-                result = result.popleft(index.start % self._length)
-            if index.stop is not None:
-                result = result.pop(self._length - (index.stop % self._length))
-
-            return result
+            start, stop, _ = index.indices(self._length)
+            return self.popleft(start).pop(self._length - max(start, stop))
 
         if not isinstance(index, Integral):
             raise TypeError("'%s' object cannot be interpreted as an index" % type(index).__name__)
-- 
2.43.0


From 41ac10b01ecc9deb7a521428343cab8a67a4e1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:35 +0000
Subject: [PATCH 06/30] fix: PDeque.remove and PDeque.reverse dropped maxlen

---
 pyrsistent/_pdeque.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index a56baea..1945279 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -272,13 +272,13 @@ class PDeque(Generic[T_co]):
         pdeque([1, 2])
         """
         try:
-            return PDeque(self._left_list.remove(elem), self._right_list, self._length - 1)
+            return PDeque(self._left_list.remove(elem), self._right_list, self._length - 1, self._maxlen)
         except ValueError:
             # Value not found in left list, try the right list
             try:
                 # This is severely inefficient with a double reverse, should perhaps implement a remove_last()?
                 return PDeque(self._left_list,
-                              self._right_list.reverse().remove(elem).reverse(), self._length - 1)
+                              self._right_list.reverse().remove(elem).reverse(), self._length - 1, self._maxlen)
             except ValueError as e:
                 raise ValueError('{0} not found in PDeque'.format(elem)) from e
 
@@ -294,7 +294,7 @@ class PDeque(Generic[T_co]):
         >>> reversed(pdeque([1, 2, 3]))
         pdeque([3, 2, 1])
         """
-        return PDeque(self._right_list, self._left_list, self._length)
+        return PDeque(self._right_list, self._left_list, self._length, self._maxlen)
     __reversed__ = reverse
 
     def rotate(self, steps):
-- 
2.43.0


From bd94d221aa4105740062991542093d2d04595172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:35 +0000
Subject: [PATCH 07/30] fix: PDeque.rotate by more steps than there are
 elements was wrong

---
 pyrsistent/_pdeque.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 1945279..7c35286 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -307,6 +307,10 @@ class PDeque(Generic[T_co]):
         >>> x.rotate(-2)
         pdeque([3, 1, 2])
         """
+        if self._length:
+            # Whole turns change nothing, keep the sign since it decides the direction
+            steps = steps % self._length if steps >= 0 else -(-steps % self._length)
+
         popped_deque = self.pop(steps)
         if steps >= 0:
             return popped_deque.extendleft(islice(self.reverse(), steps))
-- 
2.43.0


From 3fc8806ef0a27d68c78cef5ad1a0e4487e123352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:35 +0000
Subject: [PATCH 08/30] fix: PList slices with a negative start and no stop
 raised IndexError

---
 pyrsistent/_plist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_plist.py b/pyrsistent/_plist.py
index 322e15d..687ac0d 100644
--- a/pyrsistent/_plist.py
+++ b/pyrsistent/_plist.py
@@ -168,7 +168,7 @@ class _PListBase(object):
 
         if isinstance(index, slice):
             if index.start is not None and index.stop is None and (index.step is None or index.step == 1):
-                return self._drop(index.start)
+                return self._drop(index.start if index.start >= 0 else max(len(self) + index.start, 0))
 
             # Take the easy way out for all other slicing cases, not much structural reuse possible anyway
             return plist(tuple(self)[index])
-- 
2.43.0


From b8c7526f7718b9af4652028b71fbed28d1c36577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:35 +0000
Subject: [PATCH 09/30] fix: checked types declared more than one inheritance
 level up were ignored

---
 pyrsistent/_checked_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 0942f91..db89abf 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -106,7 +106,7 @@ def maybe_parse_many_user_types(ts):
 def _store_types(dct, bases, destination_name, source_name):
     maybe_types = maybe_parse_many_user_types([
         d[source_name]
-        for d in ([dct] + [b.__dict__ for b in bases]) if source_name in d
+        for d in ([dct] + list(_all_dicts(bases))) if source_name in d
     ])
 
     dct[destination_name] = maybe_types
-- 
2.43.0


From 349f990c60086474fed1358bf80e59e0de1cba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:35 +0000
Subject: [PATCH 10/30] fix: equal PSets could have different hashes

---
 pyrsistent/_pset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 2d67178..5ae480b 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -54,7 +54,7 @@ class PSet(Generic[T_co]):
         return self.__repr__()
 
     def __hash__(self):
-        return hash(self._map)
+        return hash(frozenset(self))
 
     def __reduce__(self):
         # Pickling support
-- 
2.43.0


From 7788afd9bb7c1680133b5c2d6717b386c794ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:42 +0000
Subject: [PATCH 11/30] fix: is_dirty() of a vector evolver after deletes that
 succeed or fail

---
 pvectorcmodule.c       |  3 ++-
 pyrsistent/_pvector.py | 10 +++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 9ed0ea1..51225bb 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1438,7 +1438,8 @@ static int internalPVectorDelete(PVectorEvolver *self, Py_ssize_t position) {
 
   Py_DECREF(self->originalVector);
   self->originalVector = temp2;
-  self->newVector = self->originalVector;
+  // A copy, so that the evolver remains dirty after the delete
+  self->newVector = rawCopyPVector(temp2);
   return 0;
 }
 
diff --git a/pyrsistent/_pvector.py b/pyrsistent/_pvector.py
index 51d8a22..884fafb 100644
--- a/pyrsistent/_pvector.py
+++ b/pyrsistent/_pvector.py
@@ -153,7 +153,7 @@ class PythonPVector(object):
 
     class Evolver(object):
         __slots__ = ('_count', '_shift', '_root', '_tail', '_tail_offset', '_dirty_nodes',
-                     '_extra_tail', '_cached_leafs', '_orig_pvector')
+                     '_extra_tail', '_cached_leafs', '_orig_pvector', '_deleted')
 
         def __init__(self, v):
             self._reset(v)
@@ -180,6 +180,7 @@ class PythonPVector(object):
             self._cached_leafs = {}
             self._extra_tail = []
             self._orig_pvector = v
+            self._deleted = False
 
         def append(self, element):
             self._extra_tail.append(element)
@@ -244,10 +245,13 @@ class PythonPVector(object):
                 # All structural sharing bets are off, base evolver on _extra_tail only
                 l = PythonPVector(self._count, self._shift, self._root, self._tail).tolist()
                 l.extend(self._extra_tail)
+                del l[key]
                 self._reset(_EMPTY_PVECTOR)
                 self._extra_tail = l
+            else:
+                del self._extra_tail[key]
 
-            del self._extra_tail[key]
+            self._deleted = True
 
         def persistent(self):
             result = self._orig_pvector
@@ -261,7 +265,7 @@ class PythonPVector(object):
             return self._count + len(self._extra_tail)
 
         def is_dirty(self):
-            return bool(self._dirty_nodes or self._extra_tail)
+            return bool(self._dirty_nodes or self._extra_tail or self._deleted)
 
     def evolver(self):
         return PythonPVector.Evolver(self)
-- 
2.43.0


From 61a097f701fa9723a16b0c93128fd195c0ca1f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:42 +0000
Subject: [PATCH 12/30] fix: C and Python vectors that compare equal had
 different hashes

---
 pvectorcmodule.c | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 51225bb..aa4d791 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -273,26 +273,19 @@ static PyObject *PVector_repr(PVector *self) {
 
 
 static Py_hash_t PVector_hash(PVector *self) {
-  // Follows the pattern of the tuple hash
-  long x, y;
-  Py_ssize_t i;
-  long mult = 1000003L;
-  x = 0x456789L;
-  for(i=0; i<self->count; i++) {
-      y = PyObject_Hash(_get_item(self, i));
-      if (y == -1) {
-        return -1;
-      }
-      x = (x ^ y) * mult;
-      mult += (long)(82520L + i + i);
-  }
-
-  x += 97531L;
-  if(x == -1) {
-    x = -2;
+  // The hash of a tuple with the same content, like the Python implementation. Vectors
+  // of the two implementations compare equal so their hashes have to be the same.
+  Py_hash_t result;
+  PyObject *list = PVector_toList(self);
+  PyObject *tuple = PyList_AsTuple(list);
+  Py_DECREF(list);
+  if(tuple == NULL) {
+    return -1;
   }
 
-  return x;
+  result = PyObject_Hash(tuple);
+  Py_DECREF(tuple);
+  return result;
 }
 
 static PyObject* compareSizes(long vlen, long wlen, int op) {
-- 
2.43.0


From 0d4575d36fb87a6107e76275256796cb5f61d979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:42 +0000
Subject: [PATCH 13/30] fix: extending a C vector with an iterator that raises
 leaked the partial result

---
 pvectorcmodule.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index aa4d791..6a86810 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -856,7 +856,11 @@ static PyObject* PVector_extend(PVector *self, PyObject *iterable) {
       }
 
       Py_DECREF(it);
-      HANDLE_ITERATION_ERROR()
+      if (PyErr_Occurred() && !PyErr_ExceptionMatches(PyExc_StopIteration)) {
+        Py_DECREF(newVec);
+        return NULL;
+      }
+      PyErr_Clear();
       return (PyObject*)newVec;
     }
 }
-- 
2.43.0


From 6e2e0903a928ea4f5bb0a1da6a8182cdce0cac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:42 +0000
Subject: [PATCH 14/30] fix: delete() of a C vector did not accept None for
 stop, unlike the Python one

---
 pvectorcmodule.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 6a86810..8a87087 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1015,7 +1015,7 @@ static PyObject* internalDelete(PVector *self, Py_ssize_t index, PyObject *stop_
     index += self->count;
   }
 
-  if (stop_obj != NULL) {
+  if (stop_obj != NULL && stop_obj != Py_None) {
     if (PyIndex_Check(stop_obj)) {
       stop = PyNumber_AsSsize_t(stop_obj, PyExc_IndexError);
       if (stop == -1 && PyErr_Occurred()) {
-- 
2.43.0


From 7c9e562820a17d47ba4d2e0e4ea185faa2d3cd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:42 +0000
Subject: [PATCH 15/30] fix: remove() of a C vector replaced any exception
 raised by a comparison

---
 pvectorcmodule.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 8a87087..57cf076 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1069,7 +1069,9 @@ static PyObject* PVector_remove(PVector *self, PyObject *args) {
     return internalDelete(self, index, NULL);
   }
 
-  PyErr_SetString(PyExc_ValueError, "PVector.remove(x): x not in vector");
+  if(PyErr_ExceptionMatches(PyExc_ValueError)) {
+    PyErr_SetString(PyExc_ValueError, "PVector.remove(x): x not in vector");
+  }
   return NULL;
 }
 
-- 
2.43.0


From 5f9ca8ffc99a5bbf64a2b2643874ebef605e02db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:42 +0000
Subject: [PATCH 16/30] fix: use after free when a finalizer of a replaced
 element read the C evolver

---
 pvectorcmodule.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 57cf076..e622d06 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1361,9 +1361,11 @@ static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int posit
       SET_DIRTY(resultNode);
     } else {
       resultNode = node;
+      PyObject *oldValue = resultNode->items[position & BIT_MASK];
       Py_INCREF(value);
-      Py_DECREF(resultNode->items[position & BIT_MASK]);
       resultNode->items[position & BIT_MASK] = value;
+      // Last, it may run a finalizer that uses the evolver
+      Py_DECREF(oldValue);
     }
   } else {
     if(!IS_DIRTY(node)) {
-- 
2.43.0


From d8612ee4f229cf480584f8817fc3113d4cde216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:21 +0000
Subject: [PATCH 17/30] fix: C evolver released what it replaced before it was
 in a consistent state

---
 pvectorcmodule.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index e622d06..6c70094 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1431,16 +1431,18 @@ static int internalPVectorDelete(PVectorEvolver *self, Py_ssize_t position) {
   // then reset the evolver to work on the new vector.
   PVector *temp = (PVector*)PVectorEvolver_persistent(self);
   PVector *temp2 = (PVector*)internalDelete(temp, position, NULL);
+  PVector *oldVector = self->originalVector;
   Py_DECREF(temp);
 
   if(temp2 == NULL) {
     return -1;
   }
 
-  Py_DECREF(self->originalVector);
   self->originalVector = temp2;
   // A copy, so that the evolver remains dirty after the delete
   self->newVector = rawCopyPVector(temp2);
+  // Last, it may run a finalizer that uses the evolver
+  Py_DECREF(oldVector);
   return 0;
 }
 
@@ -1474,11 +1476,9 @@ static int PVectorEvolver_set_item(PVectorEvolver *self, PyObject* item, PyObjec
       return internalPVectorDelete(self, position);
     } else if((0 <= position) && (position < (self->newVector->count + PyList_GET_SIZE(self->appendList)))) {
       if (value != NULL) {
-        int result = PyList_SetItem(self->appendList, position - self->newVector->count, value); 
-        if(result == 0) {
-          Py_INCREF(value);
-        }
-        return result;
+        // Steals the reference, and may run a finalizer of the replaced element
+        Py_INCREF(value);
+        return PyList_SetItem(self->appendList, position - self->newVector->count, value);
       }
 
       return internalPVectorDelete(self, position);
@@ -1497,23 +1497,30 @@ static int PVectorEvolver_set_item(PVectorEvolver *self, PyObject* item, PyObjec
 
 static PyObject *PVectorEvolver_persistent(PVectorEvolver *self) {
   PVector *resultVector;
+  PVector *oldOriginal = NULL;
+  PVector *oldVector = NULL;
+  PyObject *oldList = NULL;
   if(self->newVector != self->originalVector) {
     cleanVector(self->newVector);
-    Py_DECREF(self->originalVector);
+    oldOriginal = self->originalVector;
   }
 
   resultVector = self->newVector;
 
   if(PyList_GET_SIZE(self->appendList)) {
-    PVector *oldVector = resultVector;
+    oldVector = resultVector;
     resultVector = (PVector*)PVector_extend(resultVector, self->appendList);
-    Py_DECREF(oldVector);
-    Py_DECREF(self->appendList);
+    oldList = self->appendList;
     self->appendList = NULL;
   }
 
   initializeEvolver(self, resultVector, self->appendList);
   Py_INCREF(resultVector);  
+
+  // Last, these may run finalizers that use the evolver
+  Py_XDECREF(oldOriginal);
+  Py_XDECREF(oldVector);
+  Py_XDECREF(oldList);
   return (PyObject*)resultVector;
 }
 
-- 
2.43.0


From b3cca92b399e153b7931c37ceef6cc9f49c6db45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:21 +0000
Subject: [PATCH 18/30] fix: garbage collection could clear live objects held
 by vectors that share nodes

---
 pvectorcmodule.c | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 6c70094..fbb778d 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -418,16 +418,35 @@ static PyObject* PVector_repeat(PVector *self, Py_ssize_t n) {
   }
 }
 
-static int PVector_traverse(PVector *o, visitproc visit, void *arg) {
-    // Naive traverse
-    Py_ssize_t i;
-    for (i = o->count; --i >= 0; ) {
-      Py_VISIT(_get_item(o, i));
+static int traverseNode(VNode *node, int level, unsigned int refCount, visitproc visit, void *arg) {
+    // A shared node holds one reference to each of its items, however many vectors it
+    // is part of. If each of those would visit the items the garbage collector would
+    // believe that items that are referenced from elsewhere are not. Only visit items
+    // in nodes that have a single owner.
+    int i, result;
+    if (NODE_REF_COUNT(node) != refCount) {
+      return 0;
+    }
+
+    for (i = 0; i < BRANCH_FACTOR; i++) {
+      if (level == 0) {
+        Py_VISIT((PyObject*)node->items[i]);
+      } else if (node->items[i] != NULL) {
+        result = traverseNode((VNode*)node->items[i], level - SHIFT, refCount, visit, arg);
+        if (result) {
+          return result;
+        }
+      }
     }
 
     return 0;
 }
 
+static int PVector_traverse(PVector *o, visitproc visit, void *arg) {
+    int result = traverseNode(o->tail, 0, 1, visit, arg);
+    return result ? result : traverseNode(o->root, o->shift, 1, visit, arg);
+}
+
 
 static PyObject* PVector_index(PVector *self, PyObject *args) {
   // A direct rip-off of the tuple version
@@ -507,7 +526,8 @@ static PVector* rawCopyPVector(PVector* vector) {
   newVector->root = vector->root;
   newVector->tail = vector->tail;
   newVector->in_weakreflist = NULL;
-  PyObject_GC_Track((PyObject*)newVector);
+  // Not tracked by the garbage collector until cleaned since it does not own all of
+  // its nodes until then.
   return newVector;
 }
 
@@ -1502,6 +1522,7 @@ static PyObject *PVectorEvolver_persistent(PVectorEvolver *self) {
   PyObject *oldList = NULL;
   if(self->newVector != self->originalVector) {
     cleanVector(self->newVector);
+    PyObject_GC_Track((PyObject*)self->newVector);
     oldOriginal = self->originalVector;
   }
 
@@ -1539,11 +1560,13 @@ static PyObject* PVectorEvolver_is_dirty(PVectorEvolver *self) {
 }
 
 static int PVectorEvolver_traverse(PVectorEvolver *self, visitproc visit, void *arg) {
-  Py_VISIT(self->newVector);
+  Py_VISIT(self->originalVector);
+  Py_VISIT(self->appendList);
   if (self->newVector != self->originalVector) {
-      Py_VISIT(self->originalVector);
+      // The dirty nodes are owned by the evolver, the others by the original vector
+      int result = traverseNode(self->newVector->tail, 0, DIRTY_BIT | 1, visit, arg);
+      return result ? result : traverseNode(self->newVector->root, self->newVector->shift, DIRTY_BIT | 1, visit, arg);
   }
-  Py_VISIT(self->appendList);
   return 0;
 }
 
-- 
2.43.0


From 12ca4dc08bc6e5d54ffd84ab449d30c960e3ab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:18 +0000
Subject: [PATCH 19/30] fix: CheckedPVector did not check the elements of a
 Python pvector it was created from

---
 pyrsistent/_checked_types.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index db89abf..3b4867b 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -291,9 +291,6 @@ class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_Check
     __slots__ = ()
 
     def __new__(cls, initial=()):
-        if type(initial) == PythonPVector:
-            return super(CheckedPVector, cls).__new__(cls, initial._count, initial._shift, initial._root, initial._tail)
-
         return CheckedPVector.Evolver(cls, python_pvector()).extend(initial).persistent()
 
     def set(self, key, value):
@@ -348,7 +345,7 @@ class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_Check
             result = self._orig_pvector
             if self.is_dirty() or (self._destination_class != type(self._orig_pvector)):
                 pv = super(CheckedPVector.Evolver, self).persistent().extend(self._extra_tail)
-                result = self._destination_class(pv)
+                result = PythonPVector.__new__(self._destination_class, pv._count, pv._shift, pv._root, pv._tail)
                 self._reset(result)
 
             return result
-- 
2.43.0


From 40f9896861b94c0123d4161e7b203040821096e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:18 +0000
Subject: [PATCH 20/30] fix: CheckedPSet did not check the elements of a pmap
 it was created from

---
 pyrsistent/_checked_types.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 3b4867b..9390be5 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -374,9 +374,6 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
     __slots__ = ()
 
     def __new__(cls, initial=()):
-        if type(initial) is PMap:
-            return super(CheckedPSet, cls).__new__(cls, initial)
-
         evolver = CheckedPSet.Evolver(cls, pset())
         for e in initial:
             evolver.add(e)
@@ -425,7 +422,7 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or self._destination_class != type(self._original_pset):
-                self._original_pset = self._destination_class(self._pmap_evolver.persistent())
+                self._original_pset = PSet.__new__(self._destination_class, self._pmap_evolver.persistent())
 
             return self._original_pset
 
-- 
2.43.0


From b06a988c84e3879de31634236208523a8d435293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:18 +0000
Subject: [PATCH 21/30] fix: ignore_extra was not passed on to the keys and
 values of checked maps

---
 pyrsistent/_checked_types.py | 4 ++--
 pyrsistent/_field_common.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 9390be5..2b1ff47 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -504,8 +504,8 @@ class CheckedPMap(PMap[KT, VT_co], CheckedType, metaclass=_CheckedMapTypeMeta):
         checked_value_type = next((t for t in value_types if issubclass(t, CheckedType)), None)
 
         if checked_key_type or checked_value_type:
-            return cls(dict((checked_key_type.create(key) if checked_key_type and not any(isinstance(key, t) for t in key_types) else key,
-                             checked_value_type.create(value) if checked_value_type and not any(isinstance(value, t) for t in value_types) else value)
+            return cls(dict((checked_key_type.create(key, ignore_extra=ignore_extra) if checked_key_type and not any(isinstance(key, t) for t in key_types) else key,
+                             checked_value_type.create(value, ignore_extra=ignore_extra) if checked_value_type and not any(isinstance(value, t) for t in value_types) else value)
                             for key, value in source_data.items()))
 
         return cls(source_data)
diff --git a/pyrsistent/_field_common.py b/pyrsistent/_field_common.py
index 508dd2f..5a7b7a7 100644
--- a/pyrsistent/_field_common.py
+++ b/pyrsistent/_field_common.py
@@ -319,11 +319,11 @@ def pmap_field(key_type, value_type, optional=False, invariant=PFIELD_NO_INVARIA
     TheMap = _make_pmap_field_type(key_type, value_type)
 
     if optional:
-        def factory(argument):
+        def factory(argument, _factory_fields=None, ignore_extra=False):
             if argument is None:
                 return None
             else:
-                return TheMap.create(argument)
+                return TheMap.create(argument, _factory_fields=_factory_fields, ignore_extra=ignore_extra)
     else:
         factory = TheMap.create
 
-- 
2.43.0


From c678e1d71882a4ac3c46d833b54826184d4053f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:20 +0000
Subject: [PATCH 22/30] fix: PSet operators raised TypeError for some builtin
 set operands

pset ^ frozenset needs PSet.__rsub__, and frozenset <op> pset needs the
reflected operators, which the Set protocol defines.
---
 pyrsistent/_pset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 5ae480b..17c8e3a 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -187,6 +187,11 @@ class PSet(Generic[T_co]):
     __sub__ = Set.__sub__
     __xor__ = Set.__xor__
 
+    __rand__ = Set.__rand__
+    __ror__ = Set.__ror__
+    __rsub__ = Set.__rsub__
+    __rxor__ = Set.__rxor__
+
     issubset = __le__
     issuperset = __ge__
     union = __or__
-- 
2.43.0


From f5eb97f8e23e66bae9b6fd8f41df868527497760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:16 +0000
Subject: [PATCH 23/30] fix: adding an element already present to a pset made
 by pmap.keys() returned a new set

---
 pyrsistent/_pset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 17c8e3a..dae3078 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -118,7 +118,9 @@ class PSet(Generic[T_co]):
             self._pmap_evolver = original_pset._map.evolver()
 
         def add(self, element):
-            self._pmap_evolver[element] = True
+            # The values of the map are not always True, see PMap.keys()
+            if element not in self._pmap_evolver:
+                self._pmap_evolver[element] = True
             return self
 
         def remove(self, element):
-- 
2.43.0


From 4443e7015e86f55212e3ae06c9e3e1c3f9dc3ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:01 +0000
Subject: [PATCH 24/30] fix: a hash function raising during reallocation made a
 pmap evolver lose its edits

---
 pyrsistent/_pmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index 0d82c43..863a2d4 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -456,7 +456,10 @@ class PMap(Generic[KT, VT_co]):
             self._buckets_evolver.extend(new_list)
 
         def is_dirty(self):
-            return self._buckets_evolver.is_dirty()
+            # A reallocation that was interrupted by an exception from the hash function of a
+            # key leaves a clean buckets evolver behind, but not with the original buckets.
+            return (self._buckets_evolver.is_dirty()
+                    or self._buckets_evolver.persistent() is not self._original_pmap._buckets)
 
         def persistent(self):
             if self.is_dirty():
-- 
2.43.0


From 4cf3c69e2e967d918db1edbd52eb690565c61bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:18 +0000
Subject: [PATCH 25/30] fix: bags could not be pickled with protocol 0 and 1

---
 pyrsistent/_pbag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyrsistent/_pbag.py b/pyrsistent/_pbag.py
index 50001f1..b2c3ad6 100644
--- a/pyrsistent/_pbag.py
+++ b/pyrsistent/_pbag.py
@@ -38,6 +38,10 @@ class PBag(Generic[T_co]):
     def __init__(self, counts):
         self._counts = counts
 
+    def __reduce__(self):
+        # Pickling support
+        return pbag, (list(self),)
+
     def add(self, element):
         """
         Add an element to the bag.
-- 
2.43.0


From 503d89bd5071a61a5a60f491fa10050d39b1fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:33 +0000
Subject: [PATCH 26/30] fix: create with ignore_extra failed for fields with a
 builtin type as factory

---
 pyrsistent/_field_common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_field_common.py b/pyrsistent/_field_common.py
index 5a7b7a7..3e5103d 100644
--- a/pyrsistent/_field_common.py
+++ b/pyrsistent/_field_common.py
@@ -61,7 +61,11 @@ def is_field_ignore_extra_complaint(type_cls, field, ignore_extra):
     if not is_type_cls(type_cls, field.type):
         return False
 
-    return 'ignore_extra' in inspect.signature(field.factory).parameters
+    try:
+        return 'ignore_extra' in inspect.signature(field.factory).parameters
+    except ValueError:
+        # Builtin types such as int have no signature
+        return False
 
 
 
-- 
2.43.0


From 38bc2e536ed90cb7353d01c355d839bd2e2f03c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:02 +0000
Subject: [PATCH 27/30] fix: a field with its type given by name could not have
 an initial value

---
 pyrsistent/_field_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_field_common.py b/pyrsistent/_field_common.py
index 3e5103d..802b85f 100644
--- a/pyrsistent/_field_common.py
+++ b/pyrsistent/_field_common.py
@@ -140,7 +140,7 @@ def _check_field_parameters(field):
 
     if field.initial is not PFIELD_NO_INITIAL and \
             not callable(field.initial) and \
-            field.type and not any(isinstance(field.initial, t) for t in field.type):
+            field.type and not any(isinstance(t, str) or isinstance(field.initial, t) for t in field.type):
         raise TypeError('Initial has invalid type {0}'.format(type(field.initial)))
 
     if not callable(field.invariant):
-- 
2.43.0


From fe6b11cd828bdb973b9d834dd2085986e881b18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:26 +0000
Subject: [PATCH 28/30] fix: hash and equality of a map with the key
 '_cached_hash'

---
 pyrsistent/_pmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index 863a2d4..0ecf271 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -151,6 +151,7 @@ class PMap(Generic[KT, VT_co]):
         self = super(PMap, cls).__new__(cls)
         self._size = size
         self._buckets = buckets
+        self._cached_hash = None
         return self
 
     @staticmethod
@@ -247,7 +248,7 @@ class PMap(Generic[KT, VT_co]):
         if len(self) != len(other):
             return False
         if isinstance(other, PMap):
-            if (hasattr(self, '_cached_hash') and hasattr(other, '_cached_hash')
+            if (self._cached_hash is not None and other._cached_hash is not None
                     and self._cached_hash != other._cached_hash):
                 return False
             if self._buckets == other._buckets:
@@ -270,7 +271,7 @@ class PMap(Generic[KT, VT_co]):
         return self.__repr__()
 
     def __hash__(self):
-        if not hasattr(self, '_cached_hash'):
+        if self._cached_hash is None:
             self._cached_hash = hash(frozenset(self.iteritems()))
         return self._cached_hash
 
-- 
2.43.0


From 59b956c5e5bf476e26724711e45dc442d1d09fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:29 +0000
Subject: [PATCH 29/30] fix: checked collections pass the serialization format
 on to their elements

---
 pyrsistent/_checked_types.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 2b1ff47..645bf02 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -172,9 +172,9 @@ class _CheckedTypeMeta(ABCMeta):
         _store_types(dct, bases, '_checked_types', '__type__')
         store_invariants(dct, bases, '_checked_invariants', '__invariant__')
 
-        def default_serializer(self, _, value):
+        def default_serializer(self, format, value):
             if isinstance(value, CheckedType):
-                return value.serialize()
+                return value.serialize(format)
             return value
 
         dct.setdefault('__serializer__', default_serializer)
@@ -433,14 +433,14 @@ class _CheckedMapTypeMeta(type):
         _store_types(dct, bases, '_checked_value_types', '__value_type__')
         store_invariants(dct, bases, '_checked_invariants', '__invariant__')
 
-        def default_serializer(self, _, key, value):
+        def default_serializer(self, format, key, value):
             sk = key
             if isinstance(key, CheckedType):
-                sk = key.serialize()
+                sk = key.serialize(format)
 
             sv = value
             if isinstance(value, CheckedType):
-                sv = value.serialize()
+                sv = value.serialize(format)
 
             return sk, sv
 
-- 
2.43.0


From 90683207f5b07779b65bb09bc043b3f5963a51bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:29 +0000
Subject: [PATCH 30/30] fix: subclasses of a checked collection inherit its
 __serializer__

---
 pyrsistent/_checked_types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 645bf02..72ad290 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -177,7 +177,8 @@ class _CheckedTypeMeta(ABCMeta):
                 return value.serialize(format)
             return value
 
-        dct.setdefault('__serializer__', default_serializer)
+        if not any(hasattr(b, '__serializer__') for b in bases):
+            dct.setdefault('__serializer__', default_serializer)
 
         dct['__slots__'] = ()
 
@@ -444,7 +445,8 @@ class _CheckedMapTypeMeta(type):
 
             return sk, sv
 
-        dct.setdefault('__serializer__', default_serializer)
+        if not any(hasattr(b, '__serializer__') for b in bases):
+            dct.setdefault('__serializer__', default_serializer)
 
         dct['__slots__'] = ()
 
-- 
2.43.0

