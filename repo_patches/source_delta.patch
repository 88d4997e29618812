From a337fcf57fb870b9b99cbb5d960d137bf1968f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:16 +0000
Subject: [PATCH 1/4] fix: keep the key function in num * SortedKeyList

SortedKeyList overrides __mul__ but inherited SortedList.__rmul__, which
builds the result without the key.
---
 src/sortedcontainers/sortedlist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index aecf787..07cca60 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -2427,6 +2427,8 @@ class SortedKeyList(SortedList):
         values = reduce(iadd, self._lists, []) * num
         return self.__class__(values, key=self._key)
 
+    __rmul__ = __mul__
+
     def __reduce__(self):
         values = reduce(iadd, self._lists, [])
         return (type(self), (values, self.key))
-- 
2.43.0


From 2aa7013d32e8d655f8add3cd6b94b069bbbb5e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:48 +0000
Subject: [PATCH 2/4] fix: leave SortedSet unchanged when add() gets an
 incomparable value

The value went into the set before the list rejected it, and stayed there:
the set contained a value that the sequence did not.
---
 src/sortedcontainers/sortedset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index f2416bf..4fb129f 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -335,7 +335,11 @@ class SortedSet(MutableSet, Sequence):
         _set = self._set
         if value not in _set:
             _set.add(value)
-            self._list.add(value)
+            try:
+                self._list.add(value)
+            except BaseException:
+                _set.remove(value)
+                raise
 
     _add = add
 
-- 
2.43.0


From 73314183f1f358f7bf906d2d5d5456e68acd3430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:48 +0000
Subject: [PATCH 3/4] fix: leave SortedDict unchanged when setdefault() gets an
 incomparable key

The item went into the dict before the key list rejected the key, so the
dict contained a key that iteration did not.
---
 src/sortedcontainers/sorteddict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index 273c9ce..c6d0422 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -480,8 +480,8 @@ class SortedDict(dict):
         """
         if key in self:
             return self[key]
-        dict.__setitem__(self, key, default)
         self._list_add(key)
+        dict.__setitem__(self, key, default)
         return default
 
     def update(self, *args, **kwargs):
-- 
2.43.0


From 7b2e4c298560f53d12b2450885b6050e207bf6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:48 +0000
Subject: [PATCH 4/4] fix: leave sorted list unchanged when update() gets
 incomparable values

The new values were appended to the internal lists before the combined
sort, so a TypeError raised by it left them behind.
---
 src/sortedcontainers/sortedlist.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index 07cca60..96cc002 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -277,8 +277,7 @@ class SortedList(MutableSequence):
 
         if _maxes:
             if len(values) * 4 >= self._len:
-                _lists.append(values)
-                values = reduce(iadd, _lists, [])
+                values = reduce(iadd, _lists + [values], [])
                 values.sort()
                 self._clear()
             else:
@@ -1777,8 +1776,7 @@ class SortedKeyList(SortedList):
 
         if _maxes:
             if len(values) * 4 >= self._len:
-                _lists.append(values)
-                values = reduce(iadd, _lists, [])
+                values = reduce(iadd, _lists + [values], [])
                 values.sort(key=self._key)
                 self._clear()
             else:
-- 
2.43.0

