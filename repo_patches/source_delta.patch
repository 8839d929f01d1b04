From 65e4c9ac5a7c0ad68a522bac39e06769c59015fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 001/181] fix: negative column numbers in JaggedArray[rows,
 columns]

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index ff7bf52..f2a82f6 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -741,7 +741,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                         index = head.copy() if head is original_head else head
                         mask = (index < 0)
                         if mask.any():
-                            index[mask] += head.counts
+                            index[mask] += node.counts[mask]
                         if (index < 0).any() or (index >= node.counts).any():
                             raise IndexError("index in jagged subdimension is out of bounds")
                         index += node._starts
-- 
2.43.0


From 8c32857ece31f9f2b5ecde71a862cdcc468fd537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 002/181] fix: boolean mask in the second dimension of a
 JaggedArray reshaped by the wrong length

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index f2a82f6..7d3e7c5 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -758,7 +758,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                             raise IndexError("jagged subdimension is not regular and cannot match boolean shape {0}".format(len(head)))
                         head = self.numpy.nonzero(head)[0]
                         index = self.numpy.tile(head, len(node))
-                        index = (index.reshape(-1, len(node)) + node._starts.reshape(-1, 1)).reshape(-1)
+                        index = (index.reshape(len(node), len(head)) + node._starts.reshape(-1, 1)).reshape(-1)
                         node = node._content[index]
                         if isinstance(node, JaggedArray):
                             node._starts = node._starts.reshape(-1, len(head))
-- 
2.43.0


From 029a6842d41904b9c999893c33d3a223bb82458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 003/181] fix: aligning a JaggedArray of empty lists without
 content to lists that start beyond zero

---
 awkward0/array/jagged.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 7d3e7c5..82164c7 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -563,6 +563,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 try:
                     offsets = self.offsets
                     thyself = self
+                    if offsets[0] == offsets[-1] != 0:    # all lists are empty: drop the unreachable content
+                        offsets = self.numpy.zeros_like(offsets)
+                        thyself = self._tojagged(offsets[:-1], offsets[1:], copy=False)
 
                 except ValueError:
                     offsets = self.counts2offsets(self.counts.reshape(-1))
@@ -963,6 +966,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     starts = starts.reshape(counts.shape)
                     stops = stops.reshape(counts.shape)
                 else:
+                    if offsets[0] == offsets[-1] != 0:    # all lists are empty: drop the unreachable content
+                        offsets = self.numpy.zeros_like(offsets)
                     starts, stops = offsets[:-1], offsets[1:]
 
         assert starts is not None and stops is not None
-- 
2.43.0


From f45e8dda62571225c1cbe6d8673c2c5cfc3fe4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 004/181] fix: zero-width selections in the second dimension of
 a JaggedArray

---
 awkward0/array/jagged.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 82164c7..50fa198 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -718,20 +718,21 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                             stack.insert(0, node.counts)
                             node = node.flatten()
 
+                        shape = (len(node), len(head))
                         index = self.numpy.tile(head, len(node))
                         mask = (index < 0)
                         if mask.any():
-                            pluscounts = (index.reshape(-1, len(head)) + node.counts.reshape(-1, 1)).reshape(-1)
+                            pluscounts = (index.reshape(shape) + node.counts.reshape(-1, 1)).reshape(-1)
                             index[mask] = pluscounts[mask]
-                        if (index < 0).any() or (index.reshape(-1, len(head)) >= node.counts.reshape(-1, 1)).any():
+                        if (index < 0).any() or (index.reshape(shape) >= node.counts.reshape(-1, 1)).any():
                             raise IndexError("index in jagged subdimension is out of bounds")
-                        index = (index.reshape(-1, len(head)) + node._starts.reshape(-1, 1)).reshape(-1)
+                        index = (index.reshape(shape) + node._starts.reshape(-1, 1)).reshape(-1)
                         node = node._content[index]
                         if isinstance(node, JaggedArray):
-                            node._starts = node._starts.reshape(-1, len(head))
-                            node._stops = node._stops.reshape(-1, len(head))
+                            node._starts = node._starts.reshape(shape)
+                            node._stops = node._stops.reshape(shape)
                         elif isinstance(node, self.numpy.ndarray):
-                            node = node.reshape(-1, len(head))
+                            node = node.reshape(shape)
                         else:
                             raise NotImplementedError
 
@@ -761,13 +762,14 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                             raise IndexError("jagged subdimension is not regular and cannot match boolean shape {0}".format(len(head)))
                         head = self.numpy.nonzero(head)[0]
                         index = self.numpy.tile(head, len(node))
-                        index = (index.reshape(len(node), len(head)) + node._starts.reshape(-1, 1)).reshape(-1)
+                        shape = (len(node), len(head))
+                        index = (index.reshape(shape) + node._starts.reshape(-1, 1)).reshape(-1)
                         node = node._content[index]
                         if isinstance(node, JaggedArray):
-                            node._starts = node._starts.reshape(-1, len(head))
-                            node._stops = node._stops.reshape(-1, len(head))
+                            node._starts = node._starts.reshape(shape)
+                            node._stops = node._stops.reshape(shape)
                         elif isinstance(node, self.numpy.ndarray):
-                            node = node.reshape(-1, len(head))
+                            node = node.reshape(shape)
                         else:
                             raise NotImplementedError
 
-- 
2.43.0


From 92aa23de8291dd47fd17f7b9e524bdfdd4c243c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 005/181] fix: JaggedArray.fromlocalindex dropped items before
 the first zero

---
 awkward0/array/jagged.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 50fa198..bdbc5f4 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -206,6 +206,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if validate:
             if not ((index[1:] - index[:-1])[(index != 0)[1:]] == 1).all():
                 raise ValueError("every localindex that is not zero must be one greater than the previous")
+            if len(index) != 0 and index[0] != 0:
+                raise ValueError("the first localindex must be zero")
 
         starts = cls.numpy.nonzero(index == 0)[0]
         offsets = cls.numpy.empty(len(starts) + 1, dtype=cls.INDEXTYPE)
-- 
2.43.0


From 281eb0695f9f3d36e009f5acd8b23015c853a7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 006/181] fix: flattening a multidimensional JaggedArray kept
 unreachable content

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index bdbc5f4..62e378e 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1435,7 +1435,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     out = self
                 else:
                     out = self.JaggedArray(self._starts.reshape(-1), self._stops.reshape(-1), self._content)
-                return out._tojagged(offsets[:-1], offsets[1:], copy=False)._content
+                return out._tojagged(offsets[:-1], offsets[1:], copy=False)._content[:offsets[-1]]
 
     def structure1d(self, levellimit=None):
         if len(self._starts) > len(self._stops):
-- 
2.43.0


From 3b69ce7c4ea838190c15d61dc7c5c591bd06c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 007/181] fix: JaggedArray.compact of multidimensional starts
 and stops

---
 awkward0/array/jagged.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 62e378e..699d653 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1402,8 +1402,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             else:                                                # no underscore!
                 tmp = self.JaggedArray(self._starts.reshape(-1), self.stops.reshape(-1), self._content)
             out = tmp._tojagged(offsets[:-1], offsets[1:], copy=False)
-            out.starts.shape = self._starts.shape
-            out.stops.shape = self._starts.shape  # intentional: self._stops can too long
+            out._starts = out._starts.reshape(self._starts.shape)
+            out._stops = out._stops.reshape(self._starts.shape)  # intentional: self._stops can too long
             return out
 
     def flattentuple(self):
-- 
2.43.0


From cc07ba37ab3fc78fba22c4ae7105269c9a92aed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 008/181] fix: JaggedArray.fromparents without any items

---
 awkward0/array/jagged.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 699d653..b27ec4c 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -74,6 +74,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     def parents2startsstops(cls, parents, length=None):
         # FIXME for 1.0: use length to add empty lists at the end of the jagged array or truncate
         # assumes that children are contiguous, but not necessarily in order or fully covering (allows empty lists)
+        if len(parents) == 0:
+            empty = cls.numpy.zeros(0, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
+            return empty, empty.copy()
+
         tmp = cls.numpy.nonzero(parents[1:] != parents[:-1])[0] + 1
         changes = cls.numpy.empty(len(tmp) + 2, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
         changes[0] = 0
-- 
2.43.0


From f4a84a7d08d3889ec18c4f70a657ef7fde7811a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 009/181] fix: JaggedArray operations on arrays with more stops
 than starts

---
 awkward0/array/jagged.py | 52 ++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index b27ec4c..5538608 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -297,13 +297,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return serializer.encode_call(
                 ["awkward0", "JaggedArray", "fromcounts"],
                 serializer(self.counts, "JaggedArray.counts"),
-                serializer(self._content[self._starts[0]:self._stops[-1]], "JaggedArray.content"),
+                serializer(self._content[self._starts[0]:self.stops[-1]], "JaggedArray.content"),
             )
         else:
             return serializer.encode_call(
                 ["awkward0", "JaggedArray"],
                 serializer(self._starts, "JaggedArray.starts"),
-                serializer(self._stops, "JaggedArray.stops"),
+                serializer(self.stops, "JaggedArray.stops"),
                 serializer(self._content, "JaggedArray.content"),
             )
 
@@ -361,11 +361,11 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             self._valid()
             if self.offsetsaliased(self._starts, self._stops):
                 self._offsets = self._starts.base
-            elif len(self._starts.shape) == 1 and self.numpy.array_equal(self._starts[1:], self._stops[:-1]):
-                if len(self._stops) == 0:
+            elif len(self._starts.shape) == 1 and self.numpy.array_equal(self._starts[1:], self.stops[:-1]):
+                if len(self._starts) == 0:
                     return self.numpy.array([0], dtype=self.INDEXTYPE)
                 else:
-                    self._offsets = self.numpy.append(self._starts, self._stops[-1])
+                    self._offsets = self.numpy.append(self._starts, self.stops[-1])
             else:
                 raise ValueError("starts and stops are not compatible with a single offsets array")
         return self._offsets
@@ -418,7 +418,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if self._canuseoffset():
                 self._parents = self.offsets2parents(self.offsets)
             else:
-                self._parents = self.startsstops2parents(self._starts, self._stops)
+                self._parents = self.startsstops2parents(self._starts, self.stops)
         return self._parents
 
     @parents.setter
@@ -485,15 +485,15 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             else:
                 if self.check_whole_valid:
                     self._validstartsstops(self._starts, self._stops)
-                nonempty = (self._starts != self._stops)
+                nonempty = (self._starts != self.stops)
                 starts = self._starts[nonempty].reshape(-1)
                 if self.check_whole_valid:
                     if len(starts) != 0 and starts.reshape(-1).max() >= len(self._content):
                         raise ValueError("maximum start ({0}) is at or beyond the length of the content ({1})".format(starts.reshape(-1).max(), len(self._content)))
-                stops = self._stops[nonempty].reshape(-1)
+                stops = self.stops[nonempty].reshape(-1)
                 if self.check_whole_valid:
                     if len(stops) != 0 and stops.reshape(-1).max() > len(self._content):
-                        raise ValueError("maximum stop ({0}) is beyond the length of the content ({1})".format(self._stops.reshape(-1).max(), len(self._content)))
+                        raise ValueError("maximum stop ({0}) is beyond the length of the content ({1})".format(stops.reshape(-1).max(), len(self._content)))
 
             self._isvalid = True
 
@@ -577,7 +577,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     offsets = self.counts2offsets(self.counts.reshape(-1))
                     thyself = self._tojagged(offsets[:-1], offsets[1:], copy=False)
                     thyself._starts.shape = self._starts.shape
-                    thyself._stops.shape = self._stops.shape
+                    thyself._stops.shape = self._starts.shape
 
                 head = head._tojagged(thyself._starts, thyself._stops, copy=False)
                 inthead = head.copy(content=head._content.astype(self.INDEXTYPE))
@@ -607,7 +607,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         else:
             starts = self._starts[head]
-            stops = self._stops[head]
+            stops = self.stops[head]
             if len(starts.shape) == len(stops.shape) == 0:
                 return self._content[starts:stops][tail]
             else:
@@ -927,7 +927,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if not copy and starts is self._starts and stops is self._stops:
             return self
 
-        elif (starts is self._starts or self.numpy.array_equal(starts, self._starts)) and (stops is self._stops or self.numpy.array_equal(stops, self._stops)):
+        elif (starts is self._starts or self.numpy.array_equal(starts, self._starts)) and (stops is self._stops or self.numpy.array_equal(stops, self.stops)):
             return self.copy(starts=starts, stops=stops, content=(self._util_deepcopy(self._content) if copy else self._content))
 
         else:
@@ -1072,7 +1072,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         content = self._util_regular(self._content)
 
         if self._canuseoffset():
-            out = content[self._starts[0]:self._stops[-1]]
+            out = content[self._starts[0]:self.stops[-1]]
             return out.reshape(self._starts.shape + (count,) + content.shape[1:])
 
         else:
@@ -1432,13 +1432,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if len(self) == 0:
                 return self._content[0:0]
             elif self._canuseoffset():
-                return self._content[self._starts[0]:self._stops[-1]]
+                return self._content[self._starts[0]:self.stops[-1]]
             else:
                 offsets = self.counts2offsets(self.counts.reshape(-1))
                 if len(self._starts.shape) == 1:
                     out = self
                 else:
-                    out = self.JaggedArray(self._starts.reshape(-1), self._stops.reshape(-1), self._content)
+                    out = self.JaggedArray(self._starts.reshape(-1), self.stops.reshape(-1), self._content)
                 return out._tojagged(offsets[:-1], offsets[1:], copy=False)._content[:offsets[-1]]
 
     def structure1d(self, levellimit=None):
@@ -1459,9 +1459,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             length = functools.reduce(operator.mul, out._starts.shape[:-1], 1)
             offsets = self.numpy.arange(0, (length + 1)*last, last)
             outerstarts = offsets[:-1].reshape(out._starts.shape[:-2] + (-1,))
-            outerstops = offsets[1:].reshape(out._stops.shape[:-2] + (-1,))
+            outerstops = offsets[1:].reshape(out._starts.shape[:-2] + (-1,))
             innerstarts = out._starts.reshape(-1)
-            innerstops = out._stops.reshape(-1)
+            innerstops = out.stops.reshape(-1)
             out = self.copy(starts=outerstarts, stops=outerstops, content=self.copy(starts=innerstarts, stops=innerstops, content=out._content))
 
         return out
@@ -1515,8 +1515,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return out
 
         if len(thyself._starts.shape) > 1:
+            thyself._stops = thyself.stops.reshape(-1)
             thyself._starts = thyself._starts.reshape(-1)
-            thyself._stops = thyself._stops.reshape(-1)
 
         if not thyself._canuseoffset():
             offsets = self.counts2offsets(thyself.counts)
@@ -1646,7 +1646,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     @classmethod
     def _concatenate_axis0(cls, arrays):
         starts = cls.numpy.concatenate([x._starts for x in arrays])
-        stops = cls.numpy.concatenate([x._stops for x in arrays])
+        stops = cls.numpy.concatenate([x.stops for x in arrays])
         content = cls._util_concatenate([x._content for x in arrays])
 
         startsi = 0
@@ -1759,14 +1759,14 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         first = None
         def ready(x):
-            starts, stops = x._starts.reshape(-1), x._stops.reshape(-1)
+            starts, stops = x._starts.reshape(-1), x.stops.reshape(-1)
             if (x._canuseoffset() and len(starts) != 0 and starts[0] == 0) or (len(starts) != 0 and len(stops) != 0 and len(stops) >= len(starts) and starts[0] == 0 and stops[len(starts) - 1] >= starts[len(starts) - 1] and (starts[1:] == stops[:-1]).all()):
                 return x
             else:
                 offsets = x.counts2offsets(stops - starts)
                 starts, stops = offsets[:-1], offsets[1:]
                 starts = starts.reshape((-1,) + x._starts.shape[1:])
-                stops = stops.reshape((-1,) + x._stops.shape[1:])
+                stops = stops.reshape((-1,) + x._starts.shape[1:])
                 return x._tojagged(starts, stops, copy=False)
 
         if isinstance(columns1, JaggedArray):
@@ -1779,7 +1779,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     if first is None:
                         columns1[n] = first = ready(x)
                     else:
-                        columns1[n] = x._tojagged(first._starts, first._stops, copy=False)
+                        columns1[n] = x._tojagged(first._starts, first.stops, copy=False)
 
         columns2 = list(columns2)
         for i in range(len(columns2)):
@@ -1788,7 +1788,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if first is None:
                     columns2[i] = first = ready(x)
                 else:
-                    columns2[i] = x._tojagged(first._starts, first._stops, copy=False)
+                    columns2[i] = x._tojagged(first._starts, first.stops, copy=False)
 
         for n in columns3:
             x = columns3[n]
@@ -1796,7 +1796,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if first is None:
                     columns3[n] = first = ready(x)
                 else:
-                    columns3[n] = x._tojagged(first._starts, first._stops, copy=False)
+                    columns3[n] = x._tojagged(first._starts, first.stops, copy=False)
 
         if first is None:
             raise TypeError("at least one argument in JaggedArray.zip must be a JaggedArray")
@@ -1853,13 +1853,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 table = cls.Table.fget(None)(columns1, *columns2, **columns3)
             else:
                 table = cls.Table.fget(None).named("tuple", columns1, *columns2)
-            return cls.JaggedArray.fget(None)(first._starts, first._stops, table)
+            return cls.JaggedArray.fget(None)(first._starts, first.stops, table)
         else:
             if isinstance(columns1, dict) or len(columns3) > 0:
                 table = first.Table(columns1, *columns2, **columns3)
             else:
                 table = first.Table.named("tuple", columns1, *columns2)
-            return first.JaggedArray(first._starts, first._stops, table)
+            return first.JaggedArray(first._starts, first.stops, table)
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
         if not self._util_isinteger(axis) or axis < 0:
-- 
2.43.0


From 8676fa7cd5ac007b9b84da51820947de92e5b0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:39 +0000
Subject: [PATCH 010/181] fix: UnionArray validity compared dimensions instead
 of lengths of tags and index

---
 awkward0/array/union.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 9a47d67..f663432 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -258,8 +258,8 @@ class UnionArray(awkward0.array.base.AwkwardArray):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
-                if len(self._tags.shape) > len(self._index.shape):
-                    raise ValueError("tags length ({0}) must be less than or equal to index length ({1})".format(len(self._tags.shape), len(self._index.shape)))
+                if len(self._tags) > len(self._index):
+                    raise ValueError("tags length ({0}) must be less than or equal to index length ({1})".format(len(self._tags), len(self._index)))
 
                 if self._tags.shape[1:] != self._index.shape[1:]:
                     raise ValueError("tags dimensionality ({0}) must be equal to index dimensionality ({1})".format(self._tags.shape[1:], self._index.shape[1:]))
-- 
2.43.0


From ea210cfcc9065d8e8e10fe8e605f3f4ec71e6553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 011/181] fix: aligning JaggedArrays with multidimensional
 starts and stops

---
 awkward0/array/jagged.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 5538608..3546e3f 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -944,8 +944,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
             good = (parents >= 0)
             increase = self.numpy.arange(len(parents), dtype=self.INDEXTYPE)
-            increase[good] -= increase[starts[parents[good]]]
-            index = self._starts[parents]
+            increase[good] -= increase[starts.reshape(-1)[parents[good]]]
+            index = self._starts.reshape(-1)[parents]
             index += increase
             index *= good
             out = self.copy(starts=starts, stops=stops, content=self._content[index])
-- 
2.43.0


From 53fab09daf63bab67a9a1e62d727528c77d191ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 012/181] fix: elementwise operations between a JaggedArray and
 Python lists of other lengths

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 3546e3f..50f784f 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -998,7 +998,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     if "first" not in locals() or isinstance(first, (numbers.Number, self.numpy.bool_, self.numpy.bool, self.numpy.number)):
                         inputs[i] = self.numpy.array(inputs[i], copy=False)
                     else:
-                        inputs[i] = self.JaggedArray.fromiter(inputs[i])
+                        inputs[i] = self.JaggedArray.fromiter(inputs[i])._tojagged(starts, stops, copy=False)
 
         for jaggedarray in inputs:
             if isinstance(jaggedarray, JaggedArray):
-- 
2.43.0


From 119975afd7e3803f5fb82a1f4340b7e8f78601f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 013/181] fix: elementwise operations between a JaggedArray and
 a zero-dimensional array

---
 awkward0/array/jagged.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 50f784f..151ab74 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -985,6 +985,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if isinstance(inputs[i], JaggedArray):
                 inputs[i] = inputs[i]._tojagged(starts, stops, copy=False)
 
+            elif isinstance(inputs[i], self.numpy.ndarray) and len(inputs[i].shape) == 0:
+                inputs[i] = inputs[i][()]
+
             elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
                 pass
 
-- 
2.43.0


From fb0e519adc86466a494a53d3950cdda6d5783726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 014/181] fix: JaggedArray.tojagged gave wrong values to lists
 that share content

---
 awkward0/array/jagged.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 151ab74..2f2721e 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -848,6 +848,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         else:
             raise TypeError("invalid index for assigning to JaggedArray: {0}".format(where))
 
+    def _overlapping(self):
+        return (self.parents >= 0).sum() != self.counts.sum()
+
     def tojagged(self, data):
         if isinstance(data, JaggedArray):
             selfcounts = self.stops - self._starts
@@ -856,6 +859,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 raise ValueError("cannot broadcast JaggedArray to match JaggedArray with a different counts")
             if len(self._starts) == 0:
                 return self.copy(content=data._content)
+            if self._overlapping():
+                return self.compact().tojagged(data)
 
             tmp = self.compact()
             tmpparents = self.offsets2parents(tmp.offsets)
@@ -870,11 +875,15 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 raise ValueError("cannot broadcast AwkwardArray to match JaggedArray with a different length")
             if len(self._starts) == 0:
                 return self.copy(content=data)
+            if self._overlapping():
+                return self.compact().tojagged(data)
             out = self.copy(content=data[self.parents])
             out._parents = self.parents
             return out
 
         elif isinstance(data, self.numpy.ndarray):
+            if len(self._starts) != 0 and self._overlapping():
+                return self.compact().tojagged(data)
             content = self.numpy.empty(len(self.parents), dtype=data.dtype)
             if len(data.shape) == 0 or (len(data.shape) == 1 and data.shape[0] == 1):
                 content[:] = data
-- 
2.43.0


From 90fe8508e68a4caeeead5f6b93ea1db798097a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 015/181] fix: count_nonzero counted NaN

---
 awkward0/array/base.py    | 5 +++++
 awkward0/array/indexed.py | 4 ++--
 awkward0/array/jagged.py  | 4 ++--
 awkward0/array/masked.py  | 2 +-
 awkward0/array/union.py   | 2 +-
 5 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 477e5d0..971df63 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -535,6 +535,11 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         else:
             return array
 
+    @classmethod
+    def _util_nonzero(cls, array):
+        # NaN is not counted (nor anything else that is missing)
+        return (array != 0) & (array == array)
+
     @classmethod
     def _util_reduce(cls, array, ufunc, identity, dtype):
         if isinstance(array, AwkwardArray):
diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 6c7b3ba..0f2fa17 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -269,7 +269,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
             if ufunc is None:
                 return (1 - self.numpy.isnan(prepared)).sum()
             elif ufunc is self.numpy.count_nonzero:
-                return (1 - (prepared == 0)).sum()
+                return self._util_nonzero(prepared).sum()
             if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
                 prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
             return ufunc.reduce(prepared)
@@ -752,7 +752,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if ufunc is None:
                 return (1 - self.numpy.isnan(prepared)).sum()
             elif ufunc is self.numpy.count_nonzero:
-                return (1 - (prepared == 0)).sum()
+                return self._util_nonzero(prepared).sum()
             if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
                 prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
             return ufunc.reduce(prepared)
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 2f2721e..c63c55c 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1507,7 +1507,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
             elif ufunc is self.numpy.count_nonzero:
                 ufunc = self.numpy.add
-                content = 1 - (self._content == 0).astype(self.INDEXTYPE)
+                content = self._util_nonzero(self._content).astype(self.INDEXTYPE)
 
             else:
                 content = self._content
@@ -1544,7 +1544,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         elif ufunc is self.numpy.count_nonzero:
             ufunc = self.numpy.add
-            content = 1 - (content == 0).astype(self.INDEXTYPE)
+            content = self._util_nonzero(content).astype(self.INDEXTYPE)
 
         elif issubclass(content.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
             mask = self.numpy.isnan(content)
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 38cfaf0..db76c0e 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -331,7 +331,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             if ufunc is None:
                 return (1 - self.numpy.isnan(prepared)).sum()
             elif ufunc is self.numpy.count_nonzero:
-                return (1 - (prepared == 0)).sum()
+                return self._util_nonzero(prepared).sum()
             if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
                 prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
             return ufunc.reduce(prepared)
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index f663432..721a797 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -495,7 +495,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         if ufunc is None:
             return (1 - self.numpy.isnan(prepared)).sum()
         elif ufunc is self.numpy.count_nonzero:
-            return (1 - (prepared == 0)).sum()
+            return self._util_nonzero(prepared).sum()
         if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
             prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
         return ufunc.reduce(prepared)
-- 
2.43.0


From 1ed233bd79c9689df68504483735cd0d81bf21ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 016/181] fix: weighted variances and higher moments

---
 awkward0/array/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 971df63..ee7518b 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -219,7 +219,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
             if weight is None:
                 return self.numpy.true_divide((self**n).sum(), self.count())
             else:
-                return self.numpy.true_divide(((self * weight)**n).sum(), (self * 0 + weight).sum())
+                return self.numpy.true_divide((self**n * weight).sum(), (self * 0 + weight).sum())
 
     def mean(self, weight=None):
         with self.numpy.errstate(invalid="ignore"):
@@ -235,9 +235,9 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
                 one = self.numpy.true_divide(self.sum(), denom)
                 two = self.numpy.true_divide((self**2).sum(), denom)
             else:
-                denom (self * 0 + weight).sum()
+                denom = (self * 0 + weight).sum()
                 one = self.numpy.true_divide((self * weight).sum(), denom)
-                two = self.numpy.true_divide(((self * weight)**2).sum(), denom)
+                two = self.numpy.true_divide((self**2 * weight).sum(), denom)
             if ddof != 0:
                 return (two - one**2) * denom / (denom - ddof)
             else:
-- 
2.43.0


From ac9aae52169da04cd587db18c31c62f6dee131e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 017/181] fix: counts, minima and maxima of an
 IndexedMaskedArray

---
 awkward0/array/masked.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index db76c0e..b195717 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -867,17 +867,13 @@ class IndexedMaskedArray(MaskedArray):
                 out[n] = self.copy(content=x)._prepare(ufunc, identity, dtype)
             return out
 
-        if isinstance(self._content, self.numpy.ndarray):
-            if dtype is None and issubclass(self._content.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                dtype = self.numpy.dtype(type(identity))
-            if dtype is None:
-                content = self._content
-            else:
-                content = self._content.astype(dtype)
-        else:
-            content = self._content._prepare(ufunc, identity, dtype)
+        content = self.MaskedArray(self.numpy.zeros(len(self._content), dtype=self.MASKTYPE), self._content)._prepare(ufunc, identity, dtype)
+        dtype = content.dtype
+
+        if ufunc is None:
+            identity = self.numpy.nan
 
-        if identity == self.numpy.inf:
+        elif identity == self.numpy.inf:
             if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
                 identity = True
             elif self._util_isintegertype(dtype.type):
-- 
2.43.0


From ffdd0c2b3d30ceb12bcb2fe010952a7cf933a3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:26 +0000
Subject: [PATCH 018/181] fix: flatten(axis=1) of a JaggedArray whose lists do
 not start at the beginning of its content

---
 awkward0/array/jagged.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index c63c55c..2e7dcff 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1433,12 +1433,12 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._util_flatten(self._content, axis - 1))
 
         elif axis == 1:
-            self = self.compact()
-            innercounts = self._util_counts(self._content)
+            content = self.flatten()
+            innercounts = self._util_counts(content)
             if (innercounts < 0).any():
                 raise ValueError("cannot flatten an array containing scalar values")
             counts = self.JaggedArray.fromcounts(self.counts, innercounts).sum()
-            return type(self).fromcounts(counts, self._util_flatten(self._content, axis - 1))
+            return type(self).fromcounts(counts, self._util_flatten(content, axis - 1))
 
         else:
             if len(self) == 0:
-- 
2.43.0


From b4f4380b91c93999b2c10aedf14bfe22c05b9940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:26 +0000
Subject: [PATCH 019/181] fix: padding the inner lists of a JaggedArray whose
 lists are not contiguous

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 2e7dcff..65ef2de 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1878,7 +1878,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             raise TypeError("axis must be a non-negative integer (can't count from the end)")
 
         if axis > 0:
-            return type(self).fromcounts(self.counts, self._util_pad(self._content, length, maskedwhen, clip, axis - 1))
+            return self.copy(content=self._util_pad(self._content, length, maskedwhen, clip, axis - 1))
 
         flatstarts = self._starts.reshape(-1)
 
-- 
2.43.0


From 7d26d44427a4011847bf557ca9a2f7060976a0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:26 +0000
Subject: [PATCH 020/181] fix: padding a JaggedArray to zero length

---
 awkward0/array/jagged.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 65ef2de..fb52bbf 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1883,7 +1883,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         flatstarts = self._starts.reshape(-1)
 
         if len(self._content) == 0:
-            offsets = self.numpy.arange(0, length*len(flatstarts) + 1, length)
+            offsets = self.numpy.arange(len(flatstarts) + 1, dtype=self.INDEXTYPE)*length
             starts, stops = offsets[:-1], offsets[1:]
             content = self.IndexedMaskedArray(self.numpy.full(length*len(flatstarts), -1, dtype=self.INDEXTYPE), self._content, maskedwhen=-1)
             return self.copy(starts=starts.reshape(self._starts.shape), stops=stops.reshape(self._starts.shape), content=content)
@@ -1894,7 +1894,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             localindex = index - almostflat
             index = index.reshape(-1)
             comparator = self.counts.reshape(-1, 1)
-            offsets = self.numpy.arange(0, length*len(flatstarts) + 1, length, dtype=self.INDEXTYPE)
+            offsets = self.numpy.arange(len(flatstarts) + 1, dtype=self.INDEXTYPE)*length
 
         else:
             counts = self.numpy.maximum(self.counts.reshape(-1), length)
-- 
2.43.0


From 4b681b5d9e0a31aea8fc1a635c17483d70d0bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:26 +0000
Subject: [PATCH 021/181] fix: JaggedArray.zip modified the dict passed to it

---
 awkward0/array/jagged.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index fb52bbf..91ca756 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1785,6 +1785,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             columns1 = first = ready(columns1)
 
         if isinstance(columns1, dict):
+            columns1 = OrderedDict(columns1)
             for n in columns1:
                 x = columns1[n]
                 if isinstance(x, JaggedArray):
-- 
2.43.0


From 8537e0ffd91e79ffb33464eb0e4f988d14145f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:26 +0000
Subject: [PATCH 022/181] fix: zipping JaggedArrays with scalars

---
 awkward0/array/jagged.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 91ca756..f9f0684 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1819,6 +1819,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         else:
             numpy = first.numpy
 
+        def broadcast(x):
+            return numpy.full(first.stops.max() if first.stops.size != 0 else 0, x, dtype=type(x))
+
         if isinstance(columns1, JaggedArray):
             columns1 = columns1._content
         elif isinstance(columns1, dict):
@@ -1829,13 +1832,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 elif isinstance(x, Iterable):
                     columns1[n] = first.tojagged(x)._content
                 elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                    columns1[n] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), columns1, dtype=type(columns1)))._content
+                    columns1[n] = broadcast(x)
                 else:
                     raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
         elif isinstance(columns1, Iterable):
             columns1 = first.tojagged(columns1)._content
         elif isinstance(columns1, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-            columns1 = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), columns1, dtype=type(columns1)))._content
+            columns1 = broadcast(columns1)
         else:
             raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(columns1)))
 
@@ -1846,7 +1849,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif not isinstance(x, dict) and isinstance(x, Iterable):
                 columns2[i] = first.tojagged(x)._content
             elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                columns2[i] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), x, dtype=type(x)))._content
+                columns2[i] = broadcast(x)
             else:
                 raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
 
@@ -1857,7 +1860,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif not isinstance(x, dict) and isinstance(x, Iterable):
                 columns3[n] = first.tojagged(x)._content
             elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                columns3[n] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), x, dtype=type(x)))._content
+                columns3[n] = broadcast(x)
             else:
                 raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
 
-- 
2.43.0


From 5d964e9818ffc1ff9b5c01cc46ab36520abbbec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:10 +0000
Subject: [PATCH 023/181] fix: JaggedArray with narrow or unsigned starts and
 stops

---
 awkward0/array/jagged.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index f9f0684..32982d1 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -116,8 +116,11 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     def __init__(self, starts, stops, content):
         if self.offsetsaliased(starts, stops):
             self.content = content
-            self._starts, self._stops = starts, stops
-            self._offsets = starts.base
+            self._offsets = self._toindex(starts.base)
+            if self._offsets is starts.base:
+                self._starts, self._stops = starts, stops
+            else:
+                self._starts, self._stops = self._offsets[:-1], self._offsets[1:]
             self._counts, self._parents = None, None
             self._isvalid = False
 
@@ -143,9 +146,17 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         else:
             return awkward0.generate.fromiter(iterable)
 
+    @classmethod
+    def _toindex(cls, value):
+        value = cls._util_toarray(value, cls.INDEXTYPE, cls.numpy.ndarray)
+        if cls._util_isintegertype(value.dtype.type) and (value.dtype.itemsize < 4 or value.dtype.kind == "u"):
+            # arithmetic would overflow in narrow integers and give floating-point numbers with unsigned ones
+            value = value.astype(cls.INDEXTYPE)
+        return value
+
     @classmethod
     def fromoffsets(cls, offsets, content):
-        offsets = cls._util_toarray(offsets, cls.INDEXTYPE, cls.numpy.ndarray)
+        offsets = cls._toindex(offsets)
         if hasattr(offsets.base, 'base') and type(offsets.base.base).__module__ == "pyarrow.lib" and type(offsets.base.base).__name__ == "Buffer":
             # special exception to prevent copy in awkward0.fromarrow
             pass
@@ -313,7 +324,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @starts.setter
     def starts(self, value):
-        value = self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray)
+        value = self._toindex(value)
         if self.check_prop_valid:
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("starts must have integer dtype")
@@ -334,7 +345,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @stops.setter
     def stops(self, value):
-        value = self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray)
+        value = self._toindex(value)
         if self.check_prop_valid:
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("stops must have integer dtype")
@@ -372,7 +383,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @offsets.setter
     def offsets(self, value):
-        value = self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray)
+        value = self._toindex(value)
         if self.check_prop_valid:
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("offsets must have integer dtype")
-- 
2.43.0


From c0e54c0fbc47017a6d63acf52565abb1b21c8037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:16 +0000
Subject: [PATCH 024/181] fix: fillna no longer overwrites the content of the
 array it is called on

---
 awkward0/array/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index ee7518b..5df2e98 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -649,7 +649,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
     @classmethod
     def _util_fillna(cls, array, value):
         if isinstance(array, cls.numpy.ndarray):
-            data = cls.numpy.ma.getdata(array)
+            data = cls.numpy.ma.getdata(array).copy()
             mask = cls.numpy.ma.getmask(array)
             if mask is not cls.numpy.ma.nomask:
                 data[mask] = value
-- 
2.43.0


From f55e48fd74f861805c5ab84faa9dc107e5d97a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:16 +0000
Subject: [PATCH 025/181] fix: MaskedArray.fillna with a number that the
 content's dtype cannot hold truncated it

---
 awkward0/array/masked.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index b195717..d79335d 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -402,7 +402,10 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         out = self._util_fillna(self._content, value)
         if not isinstance(out, self.numpy.ndarray):
             out = self.numpy.array(out)
-        out[self.boolmask(maskedwhen=True)] = value
+        mask = self.boolmask(maskedwhen=True)
+        if isinstance(value, numbers.Number) and mask.any():
+            out = out.astype(self.numpy.result_type(out, value))
+        out[mask] = value
         return out
 
     @classmethod
-- 
2.43.0


From 4290f1ddd4eb6612fc947251ef61407ebc115e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:16 +0000
Subject: [PATCH 026/181] fix: MaskedArray with content longer than the mask:
 elementwise functions, reductions, counts, flatten, regular, fillna and
 concatenate

---
 awkward0/array/masked.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index d79335d..f37fc09 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -226,7 +226,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             if isinstance(inputs[i], IndexedMaskedArray):
                 inputs[i] = inputs[i]._content[inputs[i]._mask[tokeep]]
             elif isinstance(inputs[i], MaskedArray):
-                inputs[i] = inputs[i]._content[tokeep]
+                inputs[i] = inputs[i]._content[:len(tokeep)][tokeep]
             elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
                 inputs[i] = inputs[i][tokeep]
             else:
@@ -255,7 +255,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
     @property
     def counts(self):
         self._valid()
-        content = self._util_counts(self._content)
+        content = self._util_counts(self._content[:len(self)])
         out = self.numpy.full(self.shape, -1, dtype=content.dtype)
         mask = self.boolmask(maskedwhen=False)
         out[mask] = content[mask]
@@ -290,7 +290,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def flatten(self, axis=0):
         mask = self.boolmask(maskedwhen=False)
-        goodcontent = self._content[mask]
+        goodcontent = self._content[:len(mask)][mask]
         content = self._util_flatten(goodcontent, axis)
         counts = self._util_counts(goodcontent)
         counts[counts < 0] = 1
@@ -307,7 +307,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def regular(self):
         self._valid()
-        out = self._util_regular(self._content).astype(self.numpy.float64)
+        out = self._util_regular(self._content[:len(self)]).astype(self.numpy.float64)
         out[self.boolmask(maskedwhen=True)] = float("nan")
         return out
 
@@ -343,6 +343,9 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
                 out[n] = self.copy(content=x)._prepare(ufunc, identity, dtype)
             return out
 
+        if len(self._content) != len(self):
+            return self.copy(content=self._content[:len(self)])._prepare(ufunc, identity, dtype)
+
         if isinstance(self._content, self.numpy.ndarray):
             if dtype is None and issubclass(self._content.dtype.type, (self.numpy.bool_, self.numpy.bool)):
                 dtype = self.numpy.dtype(type(identity))
@@ -399,7 +402,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
 
     def fillna(self, value):
-        out = self._util_fillna(self._content, value)
+        out = self._util_fillna(self._content[:len(self)], value)
         if not isinstance(out, self.numpy.ndarray):
             out = self.numpy.array(out)
         mask = self.boolmask(maskedwhen=True)
@@ -412,7 +415,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _concatenate_axis0(cls, arrays):
         assert all(isinstance(x, MaskedArray) for x in arrays)
         mask = cls.numpy.concatenate([x.boolmask(maskedwhen=True) for x in arrays])
-        content = awkward0.array.base.AwkwardArray.concatenate([x._content for x in arrays])
+        content = awkward0.array.base.AwkwardArray.concatenate([x._content[:len(x)] for x in arrays])
         return cls(mask, content, maskedwhen=True)
 
     _topandas_name = "MaskedSeries"
-- 
2.43.0


From 4b0f113fe85eb5b6caadaf4ed07a35498f7e3af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:30 +0000
Subject: [PATCH 027/181] fix: reducing flat arrays: counts, empty arrays,
 booleans and NaN

---
 awkward0/array/base.py | 63 ++++++++++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 14 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 5df2e98..b3941c4 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -545,22 +545,57 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         if isinstance(array, AwkwardArray):
             return array._reduce(ufunc, identity, dtype)
 
+        array = cls._util_prepare(array, ufunc, identity, dtype)
+        if ufunc is None:
+            return (1 - cls.numpy.isnan(array).astype(cls.INDEXTYPE.fget(None))).sum()
+        elif ufunc is cls.numpy.count_nonzero:
+            return cls._util_nonzero(array).sum()
         elif len(array) == 0:
-            if dtype is None:
-                dtype = array.dtype
-            return ufunc.reduce(cls.numpy.full((1,) + array.shape[1:], identity, dtype=dtype), axis=-1)
+            array = cls.numpy.full((1,) + array.shape[1:], cls._util_identity(identity, array.dtype), dtype=array.dtype)
+        return ufunc.reduce(array, axis=None)
 
-        else:
-            original = array
-            if dtype is not None:
-                array = cls.numpy.array(array, dtype=dtype, copy=False)
-            if issubclass(array.dtype.type, (cls.numpy.floating, cls.numpy.complexfloating)):
-                mask = cls.numpy.isnan(array)
-                if mask.any():
-                    if array is original or not array.flags.owndata:
-                        array = array.copy()
-                    array[mask] = identity
-            return ufunc.reduce(array, axis=None)
+    @classmethod
+    def _util_prepare(cls, array, ufunc, identity, dtype):
+        # flat array to reduce, in which missing values are the identity
+        # (for counting: NaN if missing, zero if present; for counting non-zero values: whether it counts)
+        if isinstance(array, AwkwardArray):
+            return array._prepare(ufunc, identity, dtype)
+
+        floating = issubclass(array.dtype.type, (cls.numpy.floating, cls.numpy.complexfloating))
+        if ufunc is None:
+            out = cls.numpy.zeros(array.shape, dtype=cls.numpy.float32)
+            if floating:
+                out[cls.numpy.isnan(array)] = cls.numpy.nan
+            return out
+
+        elif ufunc is cls.numpy.count_nonzero:
+            return cls._util_nonzero(array).astype(cls.numpy.int8)
+
+        if floating:
+            mask = cls.numpy.isnan(array)
+            if mask.any():
+                array = array.copy()
+                array[mask] = identity
+        if dtype is None and issubclass(array.dtype.type, (cls.numpy.bool_, cls.numpy.bool)):
+            dtype = cls.numpy.dtype(type(identity))
+        if dtype is not None:
+            array = array.astype(dtype)
+        return array
+
+    @classmethod
+    def _util_identity(cls, identity, dtype):
+        # the identity as a value that the dtype can hold
+        if identity == cls.numpy.inf:
+            if issubclass(dtype.type, (cls.numpy.bool_, cls.numpy.bool)):
+                return True
+            elif cls._util_isintegertype(dtype.type):
+                return cls.numpy.iinfo(dtype.type).max
+        elif identity == -cls.numpy.inf:
+            if issubclass(dtype.type, (cls.numpy.bool_, cls.numpy.bool)):
+                return False
+            elif cls._util_isintegertype(dtype.type):
+                return cls.numpy.iinfo(dtype.type).min
+        return identity
 
     @classmethod
     def _util_concatenate(cls, arrays):
-- 
2.43.0


From a3fd12f29452cf31887fc1f4cd01fc5e564e5fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:30 +0000
Subject: [PATCH 028/181] fix: reductions of masked arrays without any value,
 and of booleans and NaN

---
 awkward0/array/masked.py | 61 ++++------------------------------------
 1 file changed, 6 insertions(+), 55 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index f37fc09..ef01402 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -327,14 +327,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             return out._reduce(ufunc, identity, dtype)
 
         else:
-            prepared = self._prepare(ufunc, identity, dtype)
-            if ufunc is None:
-                return (1 - self.numpy.isnan(prepared)).sum()
-            elif ufunc is self.numpy.count_nonzero:
-                return self._util_nonzero(prepared).sum()
-            if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-                prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
-            return ufunc.reduce(prepared)
+            return self._util_reduce(self._prepare(ufunc, identity, dtype), ufunc, identity, None)
 
     def _prepare(self, ufunc, identity, dtype):
         if isinstance(self._content, awkward0.array.table.Table):
@@ -346,44 +339,14 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         if len(self._content) != len(self):
             return self.copy(content=self._content[:len(self)])._prepare(ufunc, identity, dtype)
 
-        if isinstance(self._content, self.numpy.ndarray):
-            if dtype is None and issubclass(self._content.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                dtype = self.numpy.dtype(type(identity))
-            if ufunc is None:
-                content = self.numpy.zeros(self._content.shape, dtype=self.numpy.float32)
-                content[self.numpy.isnan(self._content)] = self.numpy.nan
-            elif ufunc is self.numpy.count_nonzero:
-                content = self.numpy.ones(self._content.shape, dtype=self.numpy.int8)
-                content[self.numpy.isnan(self._content)] = 0
-                content[self._content == 0] = 0
-            elif dtype is None:
-                content = self._content
-            else:
-                content = self._content.astype(dtype)
-        else:
-            content = self._content._prepare(ufunc, identity, dtype)
-
+        content = self._util_prepare(self._content, ufunc, identity, dtype)
         if content is self._content or not content.flags.owndata:
             content = content.copy()
 
         if ufunc is None:
             content[self.ismasked] = self.numpy.nan
-
         else:
-            dtype = content.dtype
-
-            if identity == self.numpy.inf:
-                if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                    identity = True
-                elif self._util_isintegertype(dtype.type):
-                    identity = self.numpy.iinfo(dtype.type).max
-            elif identity == -self.numpy.inf:
-                if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                    identity = False
-                elif self._util_isintegertype(dtype.type):
-                    identity = self.numpy.iinfo(dtype.type).min
-
-            content[self.ismasked] = identity
+            content[self.ismasked] = self._util_identity(identity, content.dtype)
 
         return content
 
@@ -873,23 +836,11 @@ class IndexedMaskedArray(MaskedArray):
                 out[n] = self.copy(content=x)._prepare(ufunc, identity, dtype)
             return out
 
-        content = self.MaskedArray(self.numpy.zeros(len(self._content), dtype=self.MASKTYPE), self._content)._prepare(ufunc, identity, dtype)
-        dtype = content.dtype
-
+        content = self._util_prepare(self._content, ufunc, identity, dtype)
         if ufunc is None:
             identity = self.numpy.nan
-
-        elif identity == self.numpy.inf:
-            if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                identity = True
-            elif self._util_isintegertype(dtype.type):
-                identity = self.numpy.iinfo(dtype.type).max
-
-        elif identity == -self.numpy.inf:
-            if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                identity = False
-            elif self._util_isintegertype(dtype.type):
-                identity = self.numpy.iinfo(dtype.type).min
+        else:
+            identity = self._util_identity(identity, content.dtype)
 
         out = self.numpy.full(self._mask.shape + content.shape[1:], identity, dtype=content.dtype)
         out[self.isunmasked] = content[self.mask[self.mask >= 0]]
-- 
2.43.0


From 07866c2d8f49538799a94ef73abe71127d740ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 029/181] fix: argmin and argmax of masked arrays

---
 awkward0/array/base.py   |  2 +-
 awkward0/array/masked.py | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index b3941c4..6aa652b 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -547,7 +547,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
 
         array = cls._util_prepare(array, ufunc, identity, dtype)
         if ufunc is None:
-            return (1 - cls.numpy.isnan(array).astype(cls.INDEXTYPE.fget(None))).sum()
+            return (1 - cls.numpy.isnan(array).astype(cls.INDEXTYPE)).sum()
         elif ufunc is cls.numpy.count_nonzero:
             return cls._util_nonzero(array).sum()
         elif len(array) == 0:
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index ef01402..dd8154f 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -354,15 +354,15 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmin())
         else:
-            index = self._content[self.isunmasked()].argmin()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            unmasked = self.numpy.nonzero(self.isunmasked)[0]
+            return unmasked[self._content[unmasked].argmin()]
 
     def argmax(self):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmax())
         else:
-            index = self._content[self.isunmasked()].argmax()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            unmasked = self.numpy.nonzero(self.isunmasked)[0]
+            return unmasked[self._content[unmasked].argmax()]
 
     def fillna(self, value):
         out = self._util_fillna(self._content[:len(self)], value)
@@ -850,15 +850,15 @@ class IndexedMaskedArray(MaskedArray):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmin())
         else:
-            index = self._content[self._mask[self.isunmasked()]].argmin()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            unmasked = self.numpy.nonzero(self.isunmasked)[0]
+            return unmasked[self._content[self._mask[unmasked]].argmin()]
 
     def argmax(self):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmax())
         else:
-            index = self._content[self._mask[self.isunmasked()]].argmax()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            unmasked = self.numpy.nonzero(self.isunmasked)[0]
+            return unmasked[self._content[self._mask[unmasked]].argmax()]
 
     def fillna(self, value):
         out = self._util_fillna(self._content, value)
-- 
2.43.0


From 86bcb8ed15f13f5eac4061bfb3b47d68138eab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 030/181] fix: BitMaskedArray.fromcontent with maskedwhen=False
 masked seven values out of eight

---
 awkward0/array/masked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index dd8154f..f807e28 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -410,7 +410,7 @@ class BitMaskedArray(MaskedArray):
         if maskedwhen:
             mask = cls.numpy.zeros(cls._ceildiv8(len(content)), dtype=cls.BITMASKTYPE)
         else:
-            mask = cls.numpy.ones(cls._ceildiv8(len(content)), dtype=cls.BITMASKTYPE)
+            mask = cls.numpy.full(cls._ceildiv8(len(content)), 255, dtype=cls.BITMASKTYPE)
         return cls(mask, content, maskedwhen=maskedwhen, lsborder=lsborder)
 
     @classmethod
-- 
2.43.0


From ab893c83bf5a755f83bdcf98c2b9e501fda8c7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 031/181] fix: selecting from a BitMaskedArray by negative, out
 of range or no positions

---
 awkward0/array/masked.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index f807e28..febc7c4 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -582,7 +582,9 @@ class BitMaskedArray(MaskedArray):
 
     def _maskwhere(self, where):
         if self._util_isinteger(where):
-            bytepos, bitmask = self._maskat(where)
+            if not -len(self._content) <= where < len(self._content):
+                raise IndexError("index {0} is out of bounds for BitMaskedArray of length {1}".format(where, len(self._content)))
+            bytepos, bitmask = self._maskat(where % len(self._content))
             return self.numpy.bitwise_and(self._mask[bytepos], bitmask) != 0
 
         elif isinstance(where, slice):
@@ -591,8 +593,12 @@ class BitMaskedArray(MaskedArray):
 
         else:
             where = self.numpy.array(where, copy=False)
+            if len(where.shape) == 1 and len(where) == 0:
+                where = where.astype(self.INDEXTYPE)
             if len(where.shape) == 1 and self._util_isintegertype(where.dtype.type):
-                byteposes, bitmasks = self._maskat(where)
+                if ((where < -len(self._content)) | (where >= len(self._content))).any():
+                    raise IndexError("index is out of bounds for BitMaskedArray of length {0}".format(len(self._content)))
+                byteposes, bitmasks = self._maskat(self.numpy.where(where < 0, where + len(self._content), where))
                 self.numpy.bitwise_and(bitmasks, self._mask[byteposes], bitmasks)
                 return bitmasks.astype(self.numpy.bool_)
 
-- 
2.43.0


From 5ee4766d765181d63eacc93bacabbed69b783ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 032/181] fix: IndexedMaskedArray: counts, regular and
 concatenate

---
 awkward0/array/masked.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index febc7c4..8f34173 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -808,8 +808,10 @@ class IndexedMaskedArray(MaskedArray):
     @property
     def counts(self):
         self._valid()
-        out = self._util_counts(self._content)[self._index]
-        out[self.boolmask(maskedwhen=True)] = -1
+        content = self._util_counts(self._content)
+        out = self.numpy.full(self.shape, -1, dtype=content.dtype)
+        mask = self.boolmask(maskedwhen=False)
+        out[mask] = content[self._mask[mask]]
         return out
 
     def flatten(self, axis=0):
@@ -828,8 +830,10 @@ class IndexedMaskedArray(MaskedArray):
 
     def regular(self):
         self._valid()
-        out = self._util_regular(self._content).astype(self.numpy.float64)[self._index]
-        out[self.boolmask(maskedwhen=True)] = float("nan")
+        content = self._util_regular(self._content).astype(self.numpy.float64)
+        out = self.numpy.full(self._mask.shape + content.shape[1:], self.numpy.nan, dtype=content.dtype)
+        mask = self.boolmask(maskedwhen=False)
+        out[mask] = content[self._mask[mask]]
         return out
 
     def indexed(self):
@@ -885,12 +889,10 @@ class IndexedMaskedArray(MaskedArray):
         indexes = []
         offset = 0
         for x in arrays:
-            tmp = x._index.copy()
-            tmp[tmp >= 0] += offset
-            indexes.append(tmp)
+            indexes.append(cls.numpy.where(x.boolmask(maskedwhen=True), -1, x._mask + offset))
             offset += len(x._content)
         index = cls.numpy.concatenate(indexes)
 
         content = awkward0.array.base.AwkwardArray.concatenate([x._content for x in arrays], axis=0)
 
-        return cls(index, content, maskedwhen=maskedwhen)
+        return cls(index, content, maskedwhen=-1)
-- 
2.43.0


From 6ff3b6d345756fb65cc29f07887011a2192bc9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 033/181] fix: IndexedMaskedArray.valid accepted a mask-index
 one beyond the end of the content

---
 awkward0/array/masked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 8f34173..5616f17 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -745,7 +745,7 @@ class IndexedMaskedArray(MaskedArray):
         if self.check_whole_valid:
             if not self._isvalid:
                 if len(self._mask) != 0:
-                    if self._mask.max() > len(self._content):
+                    if self._mask.max() >= len(self._content):
                         raise ValueError("maximum mask-index ({0}) is beyond the length of the content ({1})".format(self._mask.max(), len(self._content)))
                     if (self._mask[self._mask != self._maskedwhen] < 0).any():
                         raise ValueError("mask-index has negative values (other than maskedwhen)")
-- 
2.43.0


From ef5a9c64261a3ebfac12596145aad4c2f4bdcb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 034/181] fix: IndexedMaskedArray ignored the selection within
 its items

---
 awkward0/array/masked.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 5616f17..9880925 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -800,8 +800,10 @@ class IndexedMaskedArray(MaskedArray):
 
         else:
             maskindex = self._mask[head]
-            if tail != () and (maskindex == self._maskedwhen).any():
-                raise ValueError("masked element ({0}) is not subscriptable".format(self.masked))
+            if tail != ():
+                if (maskindex == self._maskedwhen).any():
+                    raise ValueError("masked element ({0}) is not subscriptable".format(self.masked))
+                return self._content[(maskindex,) + tail]
             else:
                 return self.copy(mask=maskindex)
 
-- 
2.43.0


From 069bd9ed8fb9f24f8b46ad4c6e201ae665aafc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 035/181] fix: IndexedArray.valid accepted an index one beyond
 the end of the content

---
 awkward0/array/indexed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 0f2fa17..f0efbfe 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -126,7 +126,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
-                if len(self._index) != 0 and self._index.reshape(-1).max() > len(self._content):
+                if len(self._index) != 0 and self._index.reshape(-1).max() >= len(self._content):
                     raise ValueError("maximum index ({0}) is beyond the length of the content ({1})".format(self._index.reshape(-1).max(), len(self._content)))
 
                 self._isvalid = True
-- 
2.43.0


From ab40e156ff69d9a1038a7ff024bdfb0bc28d2f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 036/181] fix: selecting nothing from an IndexedArray lost the
 structure of its content

---
 awkward0/array/indexed.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index f0efbfe..6863472 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -155,11 +155,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
             where = (where,)
         head, tail = where[:len(self._index.shape)], where[len(self._index.shape):]
 
-        head = self._index[head]
-        if len(head.shape) != 0 and len(head) == 0:
-            return self.numpy.empty(0, dtype=self._content.dtype)[tail]
-        else:
-            return self._content[(head,) + tail]
+        return self._content[(self._index[head],) + tail]
 
     def _invert(self, what):
         if self._inverse is None:
-- 
2.43.0


From b7178985e9ee5e0c59466c19f8353c692a9d697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 037/181] fix: concatenating IndexedArrays with narrow indexes
 overflowed them

---
 awkward0/array/indexed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 6863472..aed60c5 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -289,7 +289,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
         indexes = []
         offset = 0
         for x in arrays:
-            indexes.append(x._index + offset)
+            indexes.append(x._index.astype(cls.INDEXTYPE) + offset)
             offset += len(x._content)
         index = cls.numpy.concatenate(indexes)
 
-- 
2.43.0


From 3cd80667cc27a32d3217b29273abea8fd5bc9b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 038/181] fix: reducing IndexedArrays: counts, empty arrays,
 booleans, NaN and tables

---
 awkward0/array/indexed.py | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index aed60c5..5d92424 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -254,27 +254,11 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
         if self._util_hasjagged(self._content):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
-        elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)
-            return out._reduce(ufunc, identity, dtype)
-
         else:
-            prepared = self._prepare(ufunc, identity, dtype)
-            if ufunc is None:
-                return (1 - self.numpy.isnan(prepared)).sum()
-            elif ufunc is self.numpy.count_nonzero:
-                return self._util_nonzero(prepared).sum()
-            if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-                prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
-            return ufunc.reduce(prepared)
+            return self._util_reduce(self._content[self._index], ufunc, identity, dtype)
 
     def _prepare(self, ufunc, identity, dtype):
-        if isinstance(self._content, self.numpy.ndarray):
-            return self._content[self._index]
-        else:
-            return self._content._prepare(ufunc, identity, dtype)[self._index]
+        return self._util_prepare(self._content, ufunc, identity, dtype)[self._index]
 
     def argmin(self):
         return self._content[self._index].argmin()
-- 
2.43.0


From 3978a9bbfcfa910807e7f55911516261ae8ea8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 039/181] fix: reducing SparseArrays: counts, empty arrays,
 booleans and NaN

---
 awkward0/array/indexed.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 5d92424..d45219e 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -727,19 +727,15 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 out[n] = self.copy(content=x)
             return out._reduce(ufunc, identity, dtype)
 
+        elif isinstance(self._content, self.numpy.ndarray):
+            return self._util_reduce(self.dense, ufunc, identity, dtype)
+
         else:
-            prepared = self._prepare(ufunc, identity, dtype)
-            if ufunc is None:
-                return (1 - self.numpy.isnan(prepared)).sum()
-            elif ufunc is self.numpy.count_nonzero:
-                return self._util_nonzero(prepared).sum()
-            if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-                prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
-            return ufunc.reduce(prepared)
+            return self._util_reduce(self._prepare(ufunc, identity, dtype), ufunc, identity, None)
 
     def _prepare(self, ufunc, identity, dtype):
         if isinstance(self._content, self.numpy.ndarray):
-            return self.dense
+            return self._util_prepare(self.dense, ufunc, identity, dtype)
         else:
             return self.copy(content=self._content._prepare(ufunc, identity, dtype)).dense
 
-- 
2.43.0


From ef7e8b6b3da672a4edcd23a5b2b8dff0bd7253da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 040/181] fix: SparseArray: message of the IndexError for an
 integer out of bounds

---
 awkward0/array/indexed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index d45219e..ba78da4 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -507,7 +507,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if head < 0:
                 head += self._length
             if not 0 <= head < self._length:
-                raise IndexError("index {0} is out of bounds for size {1}".format(original_head, length))
+                raise IndexError("index {0} is out of bounds for size {1}".format(original_head, self._length))
 
             match = self.numpy.searchsorted(self._index, head, side="left")
 
-- 
2.43.0


From 75e808755c8a3776a0e333c2fefbc50c338a3614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 041/181] fix: selecting from a SparseArray by negative
 positions changed the array of positions

---
 awkward0/array/indexed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index ba78da4..6f8b96e 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -584,6 +584,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if len(head.shape) == 1 and self._util_isintegertype(head.dtype.type):
                 mask = (head < 0)
                 if mask.any():
+                    head = head.copy()
                     head[mask] += self._length
                 if (head < 0).any() or (head >= self._length).any():
                     raise IndexError("indexes out of bounds for size {0}".format(self._length))
-- 
2.43.0


From 097b468edc2d50f816376e9011af02ba8338e966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 042/181] fix: SparseArrays without any explicit value

---
 awkward0/array/indexed.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 6f8b96e..38a1f0c 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -555,6 +555,9 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if self._length != head._length:
                 raise IndexError("boolean index did not match indexed array along dimension 0; dimension is {0} but corresponding boolean dimension is {1}".format(self._length, head._length))
 
+            if len(head._index) == 0 or len(self._index) == 0:
+                return self.copy(length=head._content[:len(head._index)].sum(), index=self._index[:0], content=self._content[:0])
+
             # the new index is a cumsum (starting at zero) of the boolean values
             index = self.numpy.cumsum(head._content)
             length = index[-1]
@@ -590,8 +593,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                     raise IndexError("indexes out of bounds for size {0}".format(self._length))
 
                 match = self.numpy.searchsorted(self._index, head, side="left")
-                match[match >= len(self._index)] = len(self._index) - 1
-                explicit = (self._index[match] == head)
+                explicit = (match < len(self._index))
+                explicit[explicit] = (self._index[match[explicit]] == head[explicit])
 
                 tags = self.numpy.zeros(len(head), dtype=self.TAGTYPE)
                 index = self.numpy.zeros(len(head), dtype=self.INDEXTYPE)
@@ -630,7 +633,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         self._valid()
 
         if len(self._index) == 0:
-            return self.numpy.empty(0, dtype=self.numpy.bool_)
+            return self.numpy.full(self._length, not maskedwhen, dtype=self.numpy.bool_)
 
         if maskedwhen:
             return self._index[self._getinverse()] == self.numpy.arange(self._length, dtype=self.INDEXTYPE)
-- 
2.43.0


From 51cde2efe1ba1a10f41b3140bd188575c295d60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 043/181] fix: slicing a SparseArray whose content is longer
 than its index

---
 awkward0/array/indexed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 38a1f0c..8b0965a 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -543,7 +543,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 mask[remainder != 0] = False
 
             index = index[mask]
-            content = self._content[mask]
+            content = self._content[:len(self._index)][mask]
             if step < 0:
                 index = index[::-1]
                 content = content[::-1]
-- 
2.43.0


From cc6f164fe7b41397e2b03c425101cd5d5d2455fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 044/181] fix: the default of a SparseArray of lists was a list
 of a list

---
 awkward0/array/indexed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 8b0965a..e154c1f 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -417,7 +417,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
         if self._default is None:
             if isinstance(self._content, awkward0.array.jagged.JaggedArray):
-                return self.JaggedArray([0], [0], self._content.content)
+                return self._content.content[:0]
             elif self._content.shape[1:] == ():
                 return self._content.dtype.type(0)
             else:
-- 
2.43.0


From 80dcf14c8c355dd8e2dab19191a6b2e54b1b95cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 045/181] fix: SparseArray did not notice a change of its
 length

---
 awkward0/array/indexed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index e154c1f..51a668d 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -381,6 +381,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if value < 0:
                 raise ValueError("length must be a non-negative integer")
         self._length = value
+        self._inverse = None
 
     @property
     def index(self):
-- 
2.43.0


From 80bf5182dd579add822f937b598186688b23f7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 046/181] fix: SparseArray: empty_like, zeros_like and
 ones_like

---
 awkward0/array/indexed.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 51a668d..8b1b8d2 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -334,8 +334,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def empty_like(self, **overrides):
         mine = {}
-        mine = overrides.pop("length", self._length)
-        mine = overrides.pop("default", self._default)
+        mine["length"] = overrides.pop("length", self._length)
+        mine["default"] = overrides.pop("default", self._default)
         if isinstance(self._content, self.numpy.ndarray):
             return self.copy(content=self.numpy.empty_like(self._content), **mine)
         else:
@@ -343,8 +343,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def zeros_like(self, **overrides):
         mine = {}
-        mine = overrides.pop("length", self._length)
-        mine = overrides.pop("default", self._default)
+        mine["length"] = overrides.pop("length", self._length)
+        mine["default"] = overrides.pop("default", self._content.dtype.type(0) if isinstance(self._content, self.numpy.ndarray) else self._default)
         if isinstance(self._content, self.numpy.ndarray):
             return self.copy(content=self.numpy.zeros_like(self._content), **mine)
         else:
@@ -352,8 +352,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def ones_like(self, **overrides):
         mine = {}
-        mine = overrides.pop("length", self._length)
-        mine = overrides.pop("default", self._default)
+        mine["length"] = overrides.pop("length", self._length)
+        mine["default"] = overrides.pop("default", self._content.dtype.type(1) if isinstance(self._content, self.numpy.ndarray) else self._default)
         if isinstance(self._content, self.numpy.ndarray):
             return self.copy(content=self.numpy.ones_like(self._content), **mine)
         else:
-- 
2.43.0


From fd32508ec55278e56ff308c4bf09d8f1104da437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 047/181] fix: SparseArray: flatten and pad

---
 awkward0/array/indexed.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 8b1b8d2..a509cf2 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -703,15 +703,15 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def flatten(self, axis=0):
         self._valid()
-        out = self._util_flatten(self._content, axis)
-        out = self.numpy.full(self.shape, self.default, dtype=content.dtype)
-        if len(self._index) != 0:
-            mask = self.boolmask(maskedwhen=True)
-            out[mask] = content[self._inverse[mask]]
-        return out
+        if isinstance(self._content, self.numpy.ndarray):
+            return self._util_flatten(self.dense, axis)
+        elif self._default is None:
+            return self._util_flatten(self._content[:len(self._index)], axis)
+        else:
+            raise NotImplementedError("flatten not implemented for a SparseArray of lists with a default")
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
-        return self._util_pad(self._content.dense, length, maskedwhen, clip, axis)
+        return self._util_pad(self.dense, length, maskedwhen, clip, axis)
 
     def regular(self):
         self._valid()
-- 
2.43.0


From 3db498e3835a40e02830880b3db9b348e144520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:11 +0000
Subject: [PATCH 048/181] fix: selecting nothing from a SparseArray

---
 awkward0/array/indexed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index a509cf2..e4ed12a 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -585,6 +585,9 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
                 head = self.numpy.arange(self._length, dtype=self.INDEXTYPE)[head]
 
+            if len(head.shape) == 1 and len(head) == 0:
+                return self.copy(length=0, index=self._index[:0], content=self._content[:0])[tail]
+
             if len(head.shape) == 1 and self._util_isintegertype(head.dtype.type):
                 mask = (head < 0)
                 if mask.any():
-- 
2.43.0


From be7c596ed0aae5473d967d73ccf410cda4534c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:11 +0000
Subject: [PATCH 049/181] fix: masking a SparseArray by a SparseArray with more
 explicit values

---
 awkward0/array/indexed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index e4ed12a..a9ae83e 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -572,7 +572,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
             # find the mask's sparse elements in my sparse elements
             match2 = self.numpy.searchsorted(self._index, head._index, side="left")
-            match2[match2 >= len(head._index)] = len(head._index) - 1
+            match2[match2 >= len(self._index)] = len(self._index) - 1
             index = index[self.numpy.logical_and(self._index[match2] == head._index, head._content)]
 
             return self.copy(length=length, index=index, content=content)
-- 
2.43.0


From 09bc84faa14116af08309ca2bf6f8fcf13ed8f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:01 +0000
Subject: [PATCH 050/181] fix: UnionArray with an index longer than its tags:
 counts, masks, regular and serialization

---
 awkward0/array/union.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 721a797..9734099 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -69,7 +69,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         self._valid()
         for tag in self.numpy.unique(self._tags):
             mask = self._tags == tag
-            if not self.numpy.array_equal(self._index[mask], self.numpy.arange(self.numpy.count_nonzero(mask))):
+            if not self.numpy.array_equal(self._index[:len(self._tags)][mask], self.numpy.arange(self.numpy.count_nonzero(mask))):
                 return False
         return True
 
@@ -426,7 +426,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = self.numpy.empty(len(self), self.uniondtype(arrays))
         for tag, array in enumerate(arrays):
             mask = (self._tags == tag)
-            out[mask] = array[self._index[mask]]
+            out[mask] = array[self._index[:len(self._tags)][mask]]
         return out
 
     def boolmask(self, maskedwhen=True):
@@ -435,7 +435,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = self.numpy.empty(len(self), self.MASKTYPE)
         for tag, array in enumerate(arrays):
             mask = (self._tags == tag)
-            out[mask] = array[self._index[mask]]
+            out[mask] = array[self._index[:len(self._tags)][mask]]
         return out
 
     def choose(self, n):
@@ -478,7 +478,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = self.numpy.empty(len(self), self.uniondtype(arrays))
         for tag, array in enumerate(arrays):
             mask = (self._tags == tag)
-            out[mask] = array[self._index[mask]]
+            out[mask] = array[self._index[:len(self._tags)][mask]]
         return out
 
     def _hasjagged(self):
-- 
2.43.0


From 70fdec367d7dadc1609bfbcdb05b4693b3d9887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:01 +0000
Subject: [PATCH 051/181] fix: columns of a UnionArray that does not use all of
 its contents

---
 awkward0/array/union.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 9734099..6815deb 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -295,13 +295,15 @@ class UnionArray(awkward0.array.base.AwkwardArray):
 
         if self._util_isstringslice(where):
             contents = []
+            tags = self.numpy.zeros(self._tags.shape, dtype=self._tags.dtype)
             for tag in self.numpy.unique(self._tags):
+                tags[self._tags == tag] = len(contents)
                 contents.append(self._contents[tag][where])
             # TODO: think about inheriting methods from contents[where]; all satisfying tags would have to have the same methods before promoting the output (generalized maybemixin?)
             if len(contents) == 0:
                 return self.copy(contents=[self._contents[0][where]])
             else:
-                return self.copy(contents=contents)
+                return self.copy(tags=tags, contents=contents)
 
         if isinstance(where, tuple) and len(where) == 0:
             return self
-- 
2.43.0


From 424cbce4fe60ed6266f0a6e6bc82ea9d1fcab82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:01 +0000
Subject: [PATCH 052/181] fix: UnionArray ignored the selection within its
 items

---
 awkward0/array/union.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 6815deb..6338f8b 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -321,8 +321,16 @@ class UnionArray(awkward0.array.base.AwkwardArray):
                 return self._contents[0][(index,) + tail]
             elif (tags == tags[0]).all():
                 return self._contents[tags[0]][(index,) + tail]
-            else:
+            elif tail == ():
                 return self.copy(tags=tags, index=index)
+            else:
+                outtags = self.numpy.zeros(tags.shape, dtype=self._tags.dtype)
+                contents = []
+                for tag in self.numpy.unique(tags):
+                    mask = (tags == tag)
+                    outtags[mask] = len(contents)
+                    contents.append(self._contents[tag][(index[mask],) + tail])
+                return self.UnionArray.fromtags(outtags, contents)
 
     def __setitem__(self, where, what):
         if what.shape[:len(self._tags.shape)] != self._tags.shape:
-- 
2.43.0


From b885c787b25794c3dc05d2a181add2b768539c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:01 +0000
Subject: [PATCH 053/181] fix: assigning a column to a UnionArray of tables

---
 awkward0/array/union.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 6338f8b..1f976b6 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -338,17 +338,19 @@ class UnionArray(awkward0.array.base.AwkwardArray):
 
         if isinstance(where, awkward0.util.string):
             for tag in self.numpy.unique(self._tags):
-                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][self._tags == tag])
-                self._contents[tag][where] = self.IndexedArray(inverseindex, what)
+                mask = (self._tags == tag)
+                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][mask])
+                self._contents[tag][where] = self.IndexedArray(inverseindex, what[mask])
 
         elif self._util_isstringslice(where):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
             for tag in self.numpy.unique(self._tags):
-                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][self._tags == tag])
+                mask = (self._tags == tag)
+                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][mask])
                 for x, y in zip(where, what):
-                    self._contents[tag][x] = self.IndexedArray(inverseindex, y)
+                    self._contents[tag][x] = self.IndexedArray(inverseindex, y[mask])
 
         else:
             raise TypeError("invalid index for assigning column to Table: {0}".format(where))
-- 
2.43.0


From 0aeaaaa2644e13f5f1a2a99ea9de75d2bd5ebcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:01 +0000
Subject: [PATCH 054/181] fix: elementwise functions of a UnionArray and an
 array

---
 awkward0/array/union.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 1f976b6..27e72b9 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -375,11 +375,14 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         if method != "__call__":
             return NotImplemented
 
+        inputs = list(inputs)
         tags = []
-        for x in inputs:
+        for i, x in enumerate(inputs):
             if isinstance(x, UnionArray):
                 x._valid()
                 tags.append(x._tags)
+            elif isinstance(x, (list, tuple)):
+                inputs[i] = self.numpy.array(x)
         assert len(tags) > 0
 
         if any(x.shape != tags[0].shape for x in tags[1:]):
@@ -398,7 +401,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             outtags[mask] = outtag
             outindex[mask] = self.numpy.arange(self.numpy.count_nonzero(mask))
 
-            result = getattr(ufunc, method)(*[x[mask] if isinstance(x, UnionArray) else x for x in inputs], **kwargs)
+            result = getattr(ufunc, method)(*[x[mask] if isinstance(x, awkward0.array.base.AwkwardArray) or (isinstance(x, self.numpy.ndarray) and len(x.shape) != 0) else x for x in inputs], **kwargs)
 
             if isinstance(result, tuple):
                 if out is None:
-- 
2.43.0


From c7c4a0b58f4eefd762b34cf2f97e97f0140a6c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:01 +0000
Subject: [PATCH 055/181] fix: reducing UnionArrays: counts, booleans and NaN

---
 awkward0/array/union.py | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 27e72b9..b45ab39 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -506,35 +506,22 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             raise ValueError("some UnionArray possibilities are jagged and others are not")
 
     def _reduce(self, ufunc, identity, dtype):
-        prepared = self._prepare(ufunc, identity, dtype)
-        if ufunc is None:
-            return (1 - self.numpy.isnan(prepared)).sum()
-        elif ufunc is self.numpy.count_nonzero:
-            return self._util_nonzero(prepared).sum()
-        if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-            prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
-        return ufunc.reduce(prepared)
+        return self._util_reduce(self._prepare(ufunc, identity, dtype), ufunc, identity, None)
 
     def _prepare(self, ufunc, identity, dtype):
-        if dtype is None and issubclass(self.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-            dtype = self.numpy.dtype(type(identity))
-        if dtype is None:
-            dtype = self.dtype
+        contents = [self._util_prepare(x, ufunc, identity, dtype) for x in self._contents]
+        if not all(isinstance(x, self.numpy.ndarray) for x in contents):
+            raise TypeError("cannot reduce a UnionArray of non-primitive type")
+        outdtype = self.uniondtype(contents)
 
         out = None
         index = self._index[:len(self._tags)]
-        for tag, content in enumerate(self._contents):
-            if not isinstance(content, self.numpy.ndarray):
-                content = content._prepare(ufunc, identity, dtype)
-
-            if not isinstance(content, self.numpy.ndarray):
-                raise TypeError("cannot reduce a UnionArray of non-primitive type")
-
+        for tag, content in enumerate(contents):
             mask = (self._tags == tag)
             c = content[index[mask]]
 
             if out is None:
-                out = self.numpy.full(self._tags.shape[:1] + c.shape[1:], identity, dtype=dtype)
+                out = self.numpy.full(self._tags.shape[:1] + c.shape[1:], self._util_identity(identity, outdtype), dtype=outdtype)
             out[mask] = c
 
         return out
-- 
2.43.0


From c6269a050398c3de7612cf1e112f083b79074573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:01 +0000
Subject: [PATCH 056/181] fix: the rowname of a UnionArray of differently named
 tables

---
 awkward0/array/union.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index b45ab39..8df47bb 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -555,10 +555,10 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = None
         for content in self._contents:
             tmp = self._util_rowname_descend(content, seen)
-        if out is None:
-            out = tmp
-        elif out != tmp:
-            raise TypeError("union of multiple Tables with different names, so there is no single rowname")
+            if out is None:
+                out = tmp
+            elif out != tmp:
+                raise TypeError("union of multiple Tables with different names, so there is no single rowname")
         if out is None:
             raise TypeError("not a Table, so there is no rowname")
         else:
-- 
2.43.0


From 858b89c7ab04c62eba0fe29cc6909eed03f39e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:57 +0000
Subject: [PATCH 057/181] fix: concatenating arrays of different classes is a
 union

---
 awkward0/array/base.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 6aa652b..8ec9eb6 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -617,11 +617,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
             arrays = (self,) + tuple(arrays)
 
         def resolve(t):
-            for b in t.__bases__:
-                if issubclass(t, AwkwardArray):
-                    return resolve(b)
-            else:
-                return t
+            return t._concatenate_axis0.__func__ if issubclass(t, AwkwardArray) else t
 
         if all(type(x) == cls.numpy.ndarray for x in arrays):
             return cls.numpy.concatenate(arrays, axis=axis)
-- 
2.43.0


From daf785784f7f1ca70a95279d1bd0007e8240a0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:43 +0000
Subject: [PATCH 058/181] fix: deepcopy of a ChunkedArray

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 38a5572..8106624 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -31,7 +31,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def deepcopy(self, chunks=None, chunksizes=None):
         out = self.copy(chunks=chunks, chunksizes=chunksizes)
-        out._chunks = [self._util_deepcopy(out._chunks) for x in out._chunks]
+        out._chunks = [self._util_deepcopy(x) for x in out._chunks]
         return out
 
     def _mine(self, overrides):
-- 
2.43.0


From b263495f8542d50df205abb4f84dc769db143e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:43 +0000
Subject: [PATCH 059/181] fix: local2global of arrays adds the offset of every
 chunk and leaves its argument alone

---
 awkward0/array/chunked.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 8106624..3947c0b 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -203,11 +203,11 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 self.knowchunksizes(chunkid.max() + 1)
                 self._valid()
                 chunksizes = self.numpy.array(self._chunksizes, dtype=self.INDEXTYPE)
-                mask = (index < 0)
-                index[mask] += chunksizes[mask]
+                chunksizes = chunksizes[chunkid]
+                index = self.numpy.where(index < 0, index + chunksizes, index)
                 if not ((0 <= index) & (index < chunksizes)).all():
                     raise IndexError("some local indexes are out of bounds")
-                return chunksizes[chunkid] + index
+                return self.offsets[chunkid] + index
 
             else:
                 raise TypeError("local2global requires index and chunkid to be integers or arrays of integers")
-- 
2.43.0


From d979c0c79ab774355f6f07173d546478daae511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:43 +0000
Subject: [PATCH 060/181] fix: global2local of arrays when chunks have equal
 lengths

---
 awkward0/array/chunked.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 3947c0b..1d46c3d 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -180,7 +180,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if self._util_isinteger(index):
             return self._chunks[chunkid], index - self.offsets[chunkid]
         else:
-            return self.numpy.array(self._chunks, dtype=self.numpy.object)[chunkid], index - self.offsets[chunkid]
+            chunks = self.numpy.empty(len(chunkid), dtype=self.numpy.object_)
+            for i, x in enumerate(chunkid):
+                chunks[i] = self._chunks[x]
+            return chunks, index - self.offsets[chunkid]
 
     def local2global(self, index, chunkid):
         if self._util_isinteger(chunkid):
-- 
2.43.0


From 9fd2bec5d7b528c2762380f2eedf2a5d03a0eb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:43 +0000
Subject: [PATCH 061/181] fix: select an empty list of a ChunkedArray

---
 awkward0/array/chunked.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 1d46c3d..6141502 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -440,12 +440,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             return self.copy(chunks=chunks)
 
         else:
-            head = self.numpy.array(head, copy=False)
+            head = self._util_toarray(head, self.INDEXTYPE, self.numpy.ndarray)
             if len(head.shape) == 1 and self._util_isintegertype(head.dtype.type):
-                if len(head) == 0 and len(self._chunks) == 0:
-                    return self.copy(chunks=[])[tail]
-                elif len(head) == 0:
-                    return self.copy(chunks=[self._chunks[0][(slice(0, 0),) + tail]])
+                if len(head) == 0:
+                    return self.copy(chunks=[x[(slice(0, 0),) + tail] for x in self._chunks[:1]])
 
                 chunkid, head = self.global2chunkid(head, return_normalized=True)
 
-- 
2.43.0


From 5771e6f4813ba32be9e4baf62b522ec02f8fbe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:43 +0000
Subject: [PATCH 062/181] fix: ChunkedArray selected by increasing positions
 ignored the rest of the selection

---
 awkward0/array/chunked.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 6141502..12d4251 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -457,7 +457,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     chunks = []
                     for i, cid in enumerate(chunkid[mask]):
                         localindex = head[offsets[i]:offsets[i + 1]] - self.offsets[cid]
-                        chunks.append(self._chunks[cid][localindex])
+                        chunk = self._chunks[cid][localindex]
+                        if tail != ():
+                            chunk = chunk[(slice(None),) + tail]
+                        chunks.append(chunk)
                     return self.copy(chunks=chunks)
 
                 elif self._util_isnumpy(self.type):
-- 
2.43.0


From 050270e74caa5c522778e33e2b6b725c97037483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:43 +0000
Subject: [PATCH 063/181] fix: ChunkedArray keeps its type if a mask selects
 nothing

---
 awkward0/array/chunked.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 12d4251..ef63ac6 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -495,6 +495,9 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                         if len(x) > 0:
                             chunks.append(x)
 
+                if len(chunks) == 0 and len(self._chunks) > 0:
+                    chunks.append(self._chunks[0][(slice(0, 0),) + tail])   # so that masked.type == self.type
+
                 return self.copy(chunks=chunks)
 
             else:
-- 
2.43.0


From f3973036f8ad75ff15149ee0200bd8fc1c141fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:15 +0000
Subject: [PATCH 064/181] fix: local2global refuses chunks that do not exist

---
 awkward0/array/chunked.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index ef63ac6..64e5832 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -187,6 +187,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def local2global(self, index, chunkid):
         if self._util_isinteger(chunkid):
+            if not 0 <= chunkid < len(self._chunks):
+                raise IndexError("chunkid {0} is out of bounds for {1} chunks".format(chunkid, len(self._chunks)))
             self.knowchunksizes(chunkid + 1)
             self._valid()
             original_index = index
@@ -203,7 +205,9 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 if len(index) != len(chunkid):
                     raise ValueError("len(index) is {0} and len(chunkid) is {1}, but they should be equal".format(len(index), len(chunkid)))
 
-                self.knowchunksizes(chunkid.max() + 1)
+                if not ((0 <= chunkid) & (chunkid < len(self._chunks))).all():
+                    raise IndexError("some chunkids are out of bounds for {0} chunks".format(len(self._chunks)))
+                self.knowchunksizes()
                 self._valid()
                 chunksizes = self.numpy.array(self._chunksizes, dtype=self.INDEXTYPE)
                 chunksizes = chunksizes[chunkid]
-- 
2.43.0


From f721cc96bbb39f2f7d3d965aa163a67d6ae47389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:15 +0000
Subject: [PATCH 065/181] fix: elementwise functions of a ChunkedArray with
 lists or arrays of another length, or without chunks

---
 awkward0/array/chunked.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 64e5832..95bfe8c 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -260,6 +260,11 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         self.knowchunksizes()
         return self.offsets[-1]
 
+    def _filled(self):
+        # the part of every chunk that belongs to the array
+        self.knowchunksizes()
+        return [chunk if len(chunk) == count else chunk[:count] for count, chunk in zip(self._chunksizes, self._chunks)]
+
     def _slices(self):
         # perhaps this should be a (public) @staticmethod that finds the largest possible slices to serve no more than one chunk each from a set of ChunkedArrays
         self.knowchunksizes()
@@ -554,13 +559,24 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             # perhaps split at the largest possible slices such that all of them are one chunk each, and then unpack the single chunk after slicing
             raise ValueError("ChunkedArrays can only be combined if they have the same chunk sizes")
 
+        inputs = [self._util_toarray(x, self.DEFAULTTYPE) if isinstance(x, (list, tuple)) else x for x in inputs]
+        for x in inputs:
+            if isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)) and len(getattr(x, "shape", (None,))) > 0 and len(x) != len(first):
+                raise ValueError("cannot combine a ChunkedArray of length {0} with an array of length {1}".format(len(first), len(x)))
+
+        filled = [x._filled() if isinstance(x, ChunkedArray) else None for x in inputs]
+        slices = first._slices()
+        if len(slices) == 0:
+            filled = [[self.numpy.empty(0, dtype=self.DEFAULTTYPE)] if isinstance(x, ChunkedArray) else None for x in inputs]
+            slices = [slice(0, 0)]
+
         batches = []
-        for i, slc in enumerate(first._slices()):
+        for i, slc in enumerate(slices):
             batch = []
-            for x in inputs:
+            for x, chunks in zip(inputs, filled):
                 if isinstance(x, ChunkedArray):
-                    batch.append(x._chunks[i])
-                elif isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
+                    batch.append(chunks[i])
+                elif isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)) and len(getattr(x, "shape", (None,))) > 0:
                     batch.append(x[slc])
                 else:
                     batch.append(x)
-- 
2.43.0


From 4bf9b4f7b34a76abdafdda6c524bb1d5dd78fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:15 +0000
Subject: [PATCH 066/181] fix: counts and boolmask of a ChunkedArray without
 chunks

---
 awkward0/array/chunked.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 95bfe8c..8d68f96 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -621,10 +621,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     @property
     def counts(self):
-        return self.numpy.concatenate([self._util_counts(x) for x in self._chunks])
+        return self.numpy.concatenate([self.numpy.empty(0, dtype=self.INDEXTYPE)] + [self._util_counts(x) for x in self._filled()])
 
     def boolmask(self, maskedwhen=True):
-        return self.numpy.concatenate([self._util_boolmask(x, maskedwhen) for x in self._chunks])
+        return self.numpy.concatenate([self.numpy.empty(0, dtype=self.BOOLTYPE)] + [self._util_boolmask(x, maskedwhen) for x in self._filled()])
 
     def choose(self, n):
         out = self.copy(chunks=[x.choose(n) for x in self._chunks])
-- 
2.43.0


From 0114f84b8c8e7d6c1499c212c96a5f150dce0d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:15 +0000
Subject: [PATCH 067/181] fix: regular() of a ChunkedArray without chunks

---
 awkward0/array/chunked.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 8d68f96..8cd83ae 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -697,7 +697,9 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def regular(self):
         self._valid()
-        return self.numpy.concatenate([self._util_regular(x) for x in self._chunks])
+        if len(self._chunks) == 0:
+            return self.numpy.empty(0, dtype=self.DEFAULTTYPE)
+        return self.numpy.concatenate([self._util_regular(x) for x in self._filled()])
 
     def _hasjagged(self):
         for chunkid in range(len(self._chunks)):
-- 
2.43.0


From 1c2c6ec9dcfea318229a85b1e0917033701d69f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:40 +0000
Subject: [PATCH 068/181] fix: broadcast arrays of length one over a
 ChunkedArray

---
 awkward0/array/chunked.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 8cd83ae..fb27571 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -560,8 +560,12 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             raise ValueError("ChunkedArrays can only be combined if they have the same chunk sizes")
 
         inputs = [self._util_toarray(x, self.DEFAULTTYPE) if isinstance(x, (list, tuple)) else x for x in inputs]
+
+        def sliceable(x):
+            return isinstance(x, awkward0.array.base.AwkwardArray) or (isinstance(x, self.numpy.ndarray) and len(x.shape) > 0 and len(x) != 1)
+
         for x in inputs:
-            if isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)) and len(getattr(x, "shape", (None,))) > 0 and len(x) != len(first):
+            if sliceable(x) and len(x) != len(first):
                 raise ValueError("cannot combine a ChunkedArray of length {0} with an array of length {1}".format(len(first), len(x)))
 
         filled = [x._filled() if isinstance(x, ChunkedArray) else None for x in inputs]
@@ -576,7 +580,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             for x, chunks in zip(inputs, filled):
                 if isinstance(x, ChunkedArray):
                     batch.append(chunks[i])
-                elif isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)) and len(getattr(x, "shape", (None,))) > 0:
+                elif sliceable(x):
                     batch.append(x[slc])
                 else:
                     batch.append(x)
-- 
2.43.0


From 4bbe62c2a5472533133faf93f715061c76f62270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:40 +0000
Subject: [PATCH 069/181] fix: reduce a ChunkedArray like the concatenation of
 its chunks

---
 awkward0/array/chunked.py | 53 ++++++++-------------------------------
 1 file changed, 10 insertions(+), 43 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index fb27571..98fd1da 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -719,28 +719,12 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
         if self._util_hasjagged(self):
             chunks = []
-            for chunkid, chunk in enumerate(self._chunks):
-                this = chunk._reduce(ufunc, identity, dtype)
-                if len(this) > 0:
-                    chunks.append(this)
+            for chunk in self._filled():
+                if len(chunk) > 0:
+                    chunks.append(chunk._reduce(ufunc, identity, dtype))
             return self.copy(chunks=chunks)
 
-        out = None
-        for chunkid, chunk in enumerate(self._chunks):
-            if self._chunksizes[chunkid] > 0:
-                this = self._util_reduce(chunk[:self._chunksizes[chunkid]], ufunc, identity, dtype)
-                if out is None:
-                    out = this
-                else:
-                    out = ufunc(out, this)
-
-        if out is None:
-            if dtype is None:
-                return identity
-            else:
-                return dtype.type(identity)
-        else:
-            return out
+        return self._util_reduce(self._prepare(ufunc, identity, dtype), ufunc, identity, None)
 
     def argmin(self):
         if self._util_hasjagged(self):
@@ -761,29 +745,12 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             return self.offsets[chunkid] + indexes[chunkid]
 
     def _prepare(self, ufunc, identity, dtype):
-        self.knowchunksizes()
-        out = None
-        pos = 0
-        for chunkid, chunk in enumerate(self._chunks):
-            if self._chunksizes[chunkid] > 0:
-                this = chunk[:self._chunksizes[chunkid]]
-                if out is None:
-                    if dtype is None and issubclass(this.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                        dtype = self.numpy.dtype(type(identity))
-                    if dtype is None:
-                        dtype = this.dtype
-                    out = self.numpy.empty((sum(self._chunksizes),) + this.shape[1:], dtype=dtype)
-
-                newpos = pos + this.shape[0]
-                out[pos:newpos] = this
-                pos = newpos
-
-        if out is None:
-            if dtype is None:
-                dtype = self.DEFAULTTYPE
-            return self.numpy.array([identity], dtype=dtype)
-        else:
-            return out
+        chunks = self._filled()
+        if any(len(x) > 0 for x in chunks):
+            chunks = [x for x in chunks if len(x) > 0]
+        elif len(chunks) == 0:
+            chunks = [self.numpy.empty(0, dtype=self.DEFAULTTYPE)]
+        return self._util_concatenate([self._util_prepare(x, ufunc, identity, dtype) for x in chunks])
 
     def _util_columns(self, seen):
         if id(self) in seen:
-- 
2.43.0


From 15bf4b8612e4de8ac45e4c698f0dd8b38f100fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 070/181] fix: argmin of a ChunkedArray with empty chunks

---
 awkward0/array/chunked.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 98fd1da..0538a76 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -730,10 +730,13 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if self._util_hasjagged(self):
             return self.copy(chunks=[x.argmin() for x in self._chunks], chunksizes=self._chunksizes)
         else:
-            indexes = [x.argmin() for x in self._chunks]
-            chunkid = self.numpy.argmin([x[i] for i, x in zip(indexes, self._chunks)])
-            self.knowchunksizes(chunkid)
-            return self.offsets[chunkid] + indexes[chunkid]
+            chunks = self._filled()
+            chunkids = [i for i, x in enumerate(chunks) if len(x) > 0]
+            if len(chunkids) == 0:
+                raise ValueError("attempt to get argmin of an empty sequence")
+            indexes = [chunks[i].argmin() for i in chunkids]
+            best = self.numpy.argmin([chunks[i][j] for i, j in zip(chunkids, indexes)])
+            return self.offsets[chunkids[best]] + indexes[best]
 
     def argmax(self):
         if self._util_hasjagged(self):
-- 
2.43.0


From 8dedf0eb2851bffff4371ad7bcfb99a027d68c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 071/181] fix: argmax of a ChunkedArray with empty chunks

---
 awkward0/array/chunked.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 0538a76..cca4cd7 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -742,10 +742,13 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if self._util_hasjagged(self):
             return self.copy(chunks=[x.argmax() for x in self._chunks], chunksizes=self._chunksizes)
         else:
-            indexes = [x.argmax() for x in self._chunks]
-            chunkid = self.numpy.argmax([x[i] for i, x in zip(indexes, self._chunks)])
-            self.knowchunksizes(chunkid)
-            return self.offsets[chunkid] + indexes[chunkid]
+            chunks = self._filled()
+            chunkids = [i for i, x in enumerate(chunks) if len(x) > 0]
+            if len(chunkids) == 0:
+                raise ValueError("attempt to get argmax of an empty sequence")
+            indexes = [chunks[i].argmax() for i in chunkids]
+            best = self.numpy.argmax([chunks[i][j] for i, j in zip(chunkids, indexes)])
+            return self.offsets[chunkids[best]] + indexes[best]
 
     def _prepare(self, ufunc, identity, dtype):
         chunks = self._filled()
-- 
2.43.0


From b9f2b86534557a6bb25366ff6462381b081957a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 072/181] fix: functions of a ChunkedArray without chunks have
 no chunks

---
 awkward0/array/chunked.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index cca4cd7..a76edc9 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -612,6 +612,9 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     chunks[None].append(result)
                     types[None] = type(result)
 
+        for i in chunks:
+            chunks[i] = chunks[i][:len(first._chunks)]
+
         if out is None:
             if None in chunks:
                 return self.Methods.maybemixin(types[None], ChunkedArray)(chunks[None])
-- 
2.43.0


From 06841147ac86903fe5d4b8ab473439add29bc9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 073/181] fix: reduce a ChunkedArray that only has empty chunks
 of lists

---
 awkward0/array/chunked.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index a76edc9..81532b6 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -714,7 +714,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             if self._chunksizes[chunkid] > 0:
                 return self._util_hasjagged(self._chunks[chunkid])
         else:
-            return False
+            return len(self._chunks) > 0 and self._util_hasjagged(self._chunks[0])
 
     def _reduce(self, ufunc, identity, dtype):
         self.knowchunksizes()
@@ -725,6 +725,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             for chunk in self._filled():
                 if len(chunk) > 0:
                     chunks.append(chunk._reduce(ufunc, identity, dtype))
+            if len(chunks) == 0:
+                chunks.append(self._chunks[0]._reduce(ufunc, identity, dtype))
             return self.copy(chunks=chunks)
 
         return self._util_reduce(self._prepare(ufunc, identity, dtype), ufunc, identity, None)
-- 
2.43.0


From 9bf9f2da0ac638e9ebbf3c901ee023cee4038450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 074/181] fix: reduce a ChunkedArray chunk by chunk

---
 awkward0/array/chunked.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 81532b6..c4da006 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -729,7 +729,19 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 chunks.append(self._chunks[0]._reduce(ufunc, identity, dtype))
             return self.copy(chunks=chunks)
 
-        return self._util_reduce(self._prepare(ufunc, identity, dtype), ufunc, identity, None)
+        if not any(count > 0 for count in self._chunksizes):
+            return self._util_reduce(self._prepare(ufunc, identity, dtype), ufunc, identity, None)
+
+        combine = self.numpy.add if ufunc is None or ufunc is self.numpy.count_nonzero else ufunc
+        out = None
+        for chunk in self._filled():
+            if len(chunk) > 0:
+                this = self._util_reduce(chunk, ufunc, identity, dtype)
+                if out is None:
+                    out = this
+                else:
+                    out = combine(out, this)
+        return out
 
     def argmin(self):
         if self._util_hasjagged(self):
-- 
2.43.0


From 9b2e7be9423eda1ee5b06cf895f39a1932513052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 075/181] fix: split arrays of length one that are not
 broadcasted

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index c4da006..3f1f713 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -562,7 +562,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         inputs = [self._util_toarray(x, self.DEFAULTTYPE) if isinstance(x, (list, tuple)) else x for x in inputs]
 
         def sliceable(x):
-            return isinstance(x, awkward0.array.base.AwkwardArray) or (isinstance(x, self.numpy.ndarray) and len(x.shape) > 0 and len(x) != 1)
+            return isinstance(x, awkward0.array.base.AwkwardArray) or (isinstance(x, self.numpy.ndarray) and len(x.shape) > 0 and (len(x) != 1 or len(first) == 1))
 
         for x in inputs:
             if sliceable(x) and len(x) != len(first):
-- 
2.43.0


From 0eedea321e49277f8d8139815ab0963deee0dd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 076/181] fix: regular() of an empty JaggedArray

---
 awkward0/array/jagged.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 32982d1..b28e948 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1089,10 +1089,12 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     def regular(self):
         self._valid()
 
-        if len(self) > 0 and not (self.counts.reshape(-1)[0] == self.counts).all():
+        content = self._util_regular(self._content)
+        if len(self) == 0:
+            return self.numpy.empty(self._starts.shape + (0,) + content.shape[1:], dtype=content.dtype)
+        if not (self.counts.reshape(-1)[0] == self.counts).all():
             raise ValueError("jagged array is not regular: different elements have different counts")
         count = self.counts.reshape(-1)[0]
-        content = self._util_regular(self._content)
 
         if self._canuseoffset():
             out = content[self._starts[0]:self.stops[-1]]
-- 
2.43.0


From a47ce72cab80ae3aacc6a6b87e2b2e78d14a2a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 077/181] fix: regular() of a ChunkedArray with empty chunks

---
 awkward0/array/chunked.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 3f1f713..da97f75 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -706,7 +706,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         self._valid()
         if len(self._chunks) == 0:
             return self.numpy.empty(0, dtype=self.DEFAULTTYPE)
-        return self.numpy.concatenate([self._util_regular(x) for x in self._filled()])
+        chunks = self._filled()
+        return self.numpy.concatenate([self._util_regular(x) for x in chunks if len(x) > 0 or len(self) == 0])
 
     def _hasjagged(self):
         for chunkid in range(len(self._chunks)):
-- 
2.43.0


From 705004a88d733c30cdeab142546581dab3a79a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 078/181] fix: copy of an AppendableArray takes the sizes of
 its new chunks and does not share a chunk that is still being filled

---
 awkward0/array/chunked.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index da97f75..405c697 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -851,14 +851,16 @@ class AppendableArray(ChunkedArray):
         out._chunkshape = self._chunkshape
         out._dtype = self._dtype
         out._chunks = list(self._chunks)
+        out._chunksizes = list(self._chunksizes)
+        out._types = list(self._types)
+        if len(out._chunks) > 0 and out._chunksizes[-1] < len(out._chunks[-1]):
+            out._chunks[-1] = out._chunks[-1].copy()     # not filled by two arrays
         if chunkshape is not None:
-            out._chunkshape = chunkshape
+            out.chunkshape = chunkshape
         if dtype is not None:
-            out._dtype = dtype
+            out.dtype = dtype
         if chunks is not None:
             out.chunks = chunks
-        out._chunksizes = list(self._chunksizes)
-        out._types = list(self._types)
         return out
 
     def _mine(self, overrides):
@@ -1002,7 +1004,7 @@ class AppendableArray(ChunkedArray):
 
     def astype(self, dtype):
         chunks = []
-        for chunk in self._chunks:
+        for chunk in self._filled():
             chunks.append(chunk.astype(dtype))
         return self.copy(dtype=self.numpy.dtype(dtype), chunks=chunks)
 
-- 
2.43.0


From 62c0fcb23d36192b2d129914d917ab741f35be04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 079/181] fix: concatenate AppendableArrays

---
 awkward0/array/chunked.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 405c697..bf592ac 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -1010,6 +1010,12 @@ class AppendableArray(ChunkedArray):
 
     def fillna(self, value):
         chunks = []
-        for chunk in self._chunks:
+        for chunk in self._filled():
             chunks.append(self._util_fillna(chunk, value))
         return self.copy(chunks=chunks)
+
+    @classmethod
+    def _concatenate_axis0(cls, arrays):
+        assert all(isinstance(x, AppendableArray) for x in arrays)
+        dtype = cls.numpy.result_type(*[x._dtype for x in arrays])
+        return cls(arrays[0]._chunkshape, dtype, [y.astype(dtype) for x in arrays for y in x._filled()])
-- 
2.43.0


From 55dfa2b9ec1a433bdbbf8b79de1b15407ab51e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 080/181] fix: empty_like, zeros_like and ones_like of an
 AppendableArray

---
 awkward0/array/chunked.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index bf592ac..c866b1f 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -41,19 +41,19 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.empty_like(x) if isinstance(x, self.numpy.ndarray) else x.empty_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        return self.copy(chunks=[self.numpy.empty_like(x) if isinstance(x, self.numpy.ndarray) else x.empty_like(**overrides) for x in self._filled()], **mine)
 
     def zeros_like(self, **overrides):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.zeros_like(x) if isinstance(x, self.numpy.ndarray) else x.zeros_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        return self.copy(chunks=[self.numpy.zeros_like(x) if isinstance(x, self.numpy.ndarray) else x.zeros_like(**overrides) for x in self._filled()], **mine)
 
     def ones_like(self, **overrides):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.ones_like(x) if isinstance(x, self.numpy.ndarray) else x.ones_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        return self.copy(chunks=[self.numpy.ones_like(x) if isinstance(x, self.numpy.ndarray) else x.ones_like(**overrides) for x in self._filled()], **mine)
 
     def __awkward_serialize__(self, serializer):
         self.knowchunksizes()
-- 
2.43.0


From ef974209edb50a923ba896ccc0c8de789f5e2747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 081/181] fix: deepcopy of an AppendableArray

---
 awkward0/array/chunked.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index c866b1f..41dd8da 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -863,6 +863,11 @@ class AppendableArray(ChunkedArray):
             out.chunks = chunks
         return out
 
+    def deepcopy(self, chunkshape=None, dtype=None, chunks=None):
+        out = self.copy(chunkshape=chunkshape, dtype=dtype, chunks=chunks)
+        out._chunks = [self._util_deepcopy(x) for x in out._chunks]
+        return out
+
     def _mine(self, overrides):
         mine = {}
         mine["chunkshape"] = overrides.pop("chunkshape", self._chunkshape)
-- 
2.43.0


From d75ce166202663f4a7de5f38a06eea00ac232ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 082/181] fix: convert a partially filled AppendableArray to
 Numpy

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 41dd8da..25410c8 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -307,7 +307,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 return self.numpy.empty(0, dtype=self.DEFAULTTYPE)
             else:
                 out = self.numpy.empty(self.shape, dtype=self.dtype)
-                for chunk, slc in zip(self._chunks, self._slices()):
+                for chunk, slc in zip(self._filled(), self._slices()):
                     out[slc] = chunk
                 return out
         else:
-- 
2.43.0


From 465d9d56a311ab9f2d105b77c195f3879892b681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 083/181] fix: select from a partially filled AppendableArray
 by a mask

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 25410c8..75a93e9 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -497,7 +497,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     raise IndexError("boolean index did not match indexed array along dimension 0; dimension is {0} but corresponding boolean dimension is {1}".format(len(self), len(head)))
 
                 chunks = []
-                for chunk, slc in zip(self._chunks, self._slices()):
+                for chunk, slc in zip(self._filled(), self._slices()):
                     x = chunk[head[slc]]
                     if len(x) > 0:
                         x = x[(slice(None),) + tail]
-- 
2.43.0


From 0a5d473fb38e12ac1ab7fb46d774a7462480b789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 084/181] fix: flatten a partially filled AppendableArray

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 75a93e9..62c3006 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -695,7 +695,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         return self.copy(chunks=[self._util_flattentuple(x) for x in self._chunks], chunksizes=self._chunksizes)
 
     def flatten(self, axis=0):
-        out = self.copy(chunks=[self._util_flatten(x, axis) for x in self._chunks])
+        out = self.copy(chunks=[self._util_flatten(x, axis) for x in self._filled()])
         out.knowchunksizes()
         return out
 
-- 
2.43.0


From 97f58383e2cf1915f8fa016398e1be57a8995797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 085/181] fix: combine partially filled AppendableArrays with
 others of the same chunk sizes

---
 awkward0/array/chunked.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 62c3006..6eba4b6 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -340,7 +340,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 raise ValueError("A ChunkedArray can only be used as a slice of a ChunkedArray if they have the same chunk sizes")
             chunks = []
             chunksizes = []
-            for c, h in zip(self.chunks, head.chunks):
+            for c, h in zip(self._filled(), head._filled()):
                 if isinstance(c, awkward0.array.virtual.VirtualArray):
                     c = c.array
                 if isinstance(h, awkward0.array.virtual.VirtualArray):
@@ -668,7 +668,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             raise ValueError("A ChunkedArray can only be crossed with a ChunkedArray if they have the same chunk sizes")
         chunks = []
         chunksizes = []
-        for c, h in zip(self.chunks, other.chunks):
+        for c, h in zip(self._filled(), other._filled()):
             if isinstance(c, awkward0.array.virtual.VirtualArray):
                 c = c.array
             if isinstance(h, awkward0.array.virtual.VirtualArray):
@@ -682,7 +682,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             raise ValueError("A ChunkedArray can only be crossed with a ChunkedArray if they have the same chunk sizes")
         chunks = []
         chunksizes = []
-        for c, h in zip(self.chunks, other.chunks):
+        for c, h in zip(self._filled(), other._filled()):
             if isinstance(c, awkward0.array.virtual.VirtualArray):
                 c = c.array
             if isinstance(h, awkward0.array.virtual.VirtualArray):
-- 
2.43.0


From b9d2439f795e21f733246e0114e7ac6ec27c76d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 086/181] fix: type of an AppendableArray of multidimensional
 items

---
 awkward0/array/chunked.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 6eba4b6..ac9591e 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -959,6 +959,8 @@ class AppendableArray(ChunkedArray):
         return self.JaggedArray.counts2offsets(self._chunksizes)
 
     def _gettype(self, seen):
+        if len(self._chunkshape) > 1:
+            return awkward0.type.ArrayType(*(self._chunkshape[1:] + (self._dtype,)))
         return self._dtype
 
     def _util_layout(self, position, seen, lookup):
-- 
2.43.0


From d37b36ced2deea3c5b3d44b429f8611a0f02af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 087/181] fix: select and flatten an AppendableArray of
 multidimensional items

---
 awkward0/array/chunked.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index ac9591e..2117fb5 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -860,6 +860,8 @@ class AppendableArray(ChunkedArray):
         if dtype is not None:
             out.dtype = dtype
         if chunks is not None:
+            if chunkshape is None and len(chunks) > 0:
+                out._chunkshape = self._chunkshape[:1] + tuple(chunks[0].shape[1:])
             out.chunks = chunks
         return out
 
-- 
2.43.0


From b6b394ffd8c91557acb2d41aa9e7123270eb45e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 088/181] fix: select from an AppendableArray by a chunked mask

---
 awkward0/array/chunked.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 2117fb5..9447f48 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -339,15 +339,13 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             if not self._aligned(head):
                 raise ValueError("A ChunkedArray can only be used as a slice of a ChunkedArray if they have the same chunk sizes")
             chunks = []
-            chunksizes = []
             for c, h in zip(self._filled(), head._filled()):
                 if isinstance(c, awkward0.array.virtual.VirtualArray):
                     c = c.array
                 if isinstance(h, awkward0.array.virtual.VirtualArray):
                     h = h.array
                 chunks.append(c[(h,) + tail])
-                chunksizes.append(len(chunks[-1]))
-            return self.copy(chunks=chunks, chunksizes=chunksizes)
+            return self.copy(chunks=chunks)
 
         if self._util_isinteger(head):
             chunk, localhead = self.global2local(head)
-- 
2.43.0


From cb9de4f81b2dd3590c1b405a643b91f59e7b5a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 089/181] fix: convert a ChunkedArray of multidimensional
 arrays to Numpy

---
 awkward0/array/chunked.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 9447f48..6b92b59 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -302,7 +302,9 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def __array__(self, *args, **kwargs):
         self._checktonumpy()
 
-        if isinstance(self.type.to, self.numpy.dtype):
+        if len(self._chunks) > 0 and all(isinstance(x, self.numpy.ndarray) for x in self._chunks):
+            return self.numpy.array(self.numpy.concatenate(self._filled()), *args, **kwargs)
+        elif isinstance(self.type.to, self.numpy.dtype):
             if len(self) == 0:
                 return self.numpy.empty(0, dtype=self.DEFAULTTYPE)
             else:
-- 
2.43.0


From e8fef844af9c865a7ff3cb666ccf9adee259447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 090/181] fix: columns of an empty Table selected by a slice
 with negative step

---
 awkward0/array/table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 075c03c..e9dbdaf 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -460,6 +460,8 @@ class Table(awkward0.array.base.AwkwardArray):
 
         elif isinstance(self._view, tuple):
             start, step, length = self._view
+            if length == 0:
+                return slice(0, 0)
             stop = start + step*length
             if stop < 0:
                 stop = None
-- 
2.43.0


From 94fee40d041e0e6fff10f245ff3536f4bef9e769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 091/181] fix: a Table changed the array of negative positions
 it was indexed by

---
 awkward0/array/table.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index e9dbdaf..b80a692 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -527,9 +527,7 @@ class Table(awkward0.array.base.AwkwardArray):
             head = self._util_toarray(head, self.INDEXTYPE)
             if self._util_isintegertype(head.dtype.type):
                 length = self._length()
-                negative = (head < 0)
-                if negative.any():
-                    head[negative] += length
+                head = self.numpy.where(head < 0, head + length, head)
                 if not self.numpy.bitwise_and(0 <= head, head < length).all():
                     raise IndexError("some indexes out of bounds for length {0}".format(length))
 
-- 
2.43.0


From cabb304af830563edb42fe33515ef46e4e0e738f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 092/181] fix: select several columns of a Table.Row

---
 awkward0/array/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index b80a692..74087ff 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -80,7 +80,7 @@ class Table(awkward0.array.base.AwkwardArray):
                 except KeyError:
                     raise ValueError("no column named {0}".format(repr(where)))
 
-            elif self._util_isstringslice(where):
+            elif self._table._util_isstringslice(where):
                 contents = OrderedDict()
                 for n in where:
                     try:
-- 
2.43.0


From a5076032ef3e746b49068dbb4694756eb713a482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 093/181] fix: dir of a Table.Row

---
 awkward0/array/table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 74087ff..ae5b37b 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -2,6 +2,7 @@
 
 # BSD 3-Clause License; see https://github.com/scikit-hep/awkward-0.x/blob/master/LICENSE
 
+import keyword
 import numbers
 import re
 import types
-- 
2.43.0


From 9a8af617af30d114d5b6b8443dd0dc8d3f6cf4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 094/181] fix: functions of a row of a selected Table took
 another row

---
 awkward0/array/table.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index ae5b37b..fc7fd4d 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -111,7 +111,11 @@ class Table(awkward0.array.base.AwkwardArray):
             inputs = list(inputs)
             for i in range(len(inputs)):
                 if isinstance(inputs[i], Table.Row):
-                    inputs[i] = inputs[i]._table[inputs[i]._index : inputs[i]._index + 1]
+                    row = inputs[i]
+                    inputs[i] = row._table.copy()
+                    inputs[i]._view = (row._index, 1, 1)
+                    inputs[i]._base = row._table
+                    inputs[i]._rowstart = None
 
             result = getattr(ufunc, method)(*inputs, **kwargs)
 
-- 
2.43.0


From 15f24b2df3fdd7c05e51f9b3521ea8646397e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 095/181] fix: compare a row of a Table with a number

---
 awkward0/array/table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index fc7fd4d..2170b15 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -131,6 +131,8 @@ class Table(awkward0.array.base.AwkwardArray):
                     return tuple(out)
                 elif method == "at":
                     return None
+                elif not isinstance(result, Table):
+                    return result[0]
                 else:
                     out = awkward0.array.objects.Methods.maybemixin(type(result), self._table.Table.Row)(result, 0)
                     out._table._showdict = True
-- 
2.43.0


From 7ed2c3016f79e28178335b0aeddcc6749aa652e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 096/181] fix: functions of a Table that return several results

---
 awkward0/array/table.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 2170b15..6626c22 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -705,12 +705,10 @@ class Table(awkward0.array.base.AwkwardArray):
         for n, x in inputsdict.items():
             newcolumns[n] = getattr(ufunc, method)(*x, **kwargs)
 
+            thislen = len(newcolumns[n]) if isinstance(newcolumns[n], tuple) else False
             if tuplelen is None:
-                if isinstance(x, tuple):
-                    tuplelen = len(x)
-                else:
-                    tuplelen = False
-            elif isinstance(x, tuple) != tuplelen:
+                tuplelen = thislen
+            elif thislen != tuplelen:
                 raise AssertionError("ufuncs return tuples of different lengths or some tuples and some non-tuples")
 
         assert len(newcolumns) != 0
@@ -741,7 +739,7 @@ class Table(awkward0.array.base.AwkwardArray):
             out = [table.empty_like() for i in range(tuplelen)]
             for n in inputsdict:
                 for i in range(tuplelen):
-                    out[i][n] = newcolumns[n]
+                    out[i][n] = newcolumns[n][i]
             return tuple(out)
 
     @property
-- 
2.43.0


From 9af9e60fe750757fa5b1c2cbbe7cafde6eec8007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 097/181] fix: rows of Tables are unequal if any column differs

---
 awkward0/array/table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 6626c22..59657ad 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -721,6 +721,8 @@ class Table(awkward0.array.base.AwkwardArray):
                 assert issubclass(x.dtype.type, (self.numpy.bool_, self.numpy.bool))
                 if out is None:
                     out = x
+                elif ufunc is self.numpy.not_equal:
+                    out = self.numpy.bitwise_or(out, x, out=out)
                 else:
                     out = self.numpy.bitwise_and(out, x, out=out)
             assert out is not None
-- 
2.43.0


From bc95360f011967b3591bb1ddd5aeeafefef791e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 098/181] fix: functions of Tables of different lengths

---
 awkward0/array/table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 59657ad..8d9c325 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -689,6 +689,8 @@ class Table(awkward0.array.base.AwkwardArray):
                     table = x
                 elif set(inputsdict) != set(x._contents):
                     raise ValueError("Tables have different sets of columns")
+                elif len(table) != len(x):
+                    raise ValueError("Tables have different lengths")
 
         assert inputsdict is not None
 
-- 
2.43.0


From 5a5490babaf061e183045833bdc31c9d48f3a330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 099/181] fix: methods of a selected Table act on the selected
 rows

---
 awkward0/array/table.py | 55 +++++++++++------------------------------
 1 file changed, 14 insertions(+), 41 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 8d9c325..e9e63e2 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -359,22 +359,10 @@ class Table(awkward0.array.base.AwkwardArray):
         return out
 
     def zeros_like(self, **overrides):
-        out = self.empty_like(**overrides)
-        for n, x in self._contents.items():
-            if isinstance(x, self.numpy.ndarray):
-                out[n] = self.numpy.zeros_like(x)
-            else:
-                out[n] = x.zeros_like(**overrides)
-        return out
+        return self._foreach(lambda x: self.numpy.zeros_like(x) if isinstance(x, self.numpy.ndarray) else x.zeros_like(**overrides))
 
     def ones_like(self, **overrides):
-        out = self.empty_like(**overrides)
-        for n, x in self._contents.items():
-            if isinstance(x, self.numpy.ndarray):
-                out[n] = self.numpy.ones_like(x)
-            else:
-                out[n] = x.ones_like(**overrides)
-        return out
+        return self._foreach(lambda x: self.numpy.ones_like(x) if isinstance(x, self.numpy.ndarray) else x.ones_like(**overrides))
 
     def __awkward_serialize__(self, serializer):
         self._valid()
@@ -783,15 +771,19 @@ class Table(awkward0.array.base.AwkwardArray):
     def flatten(self, axis=0):
         raise ValueError("cannot flatten through a Table")
 
-    def pad(self, length, maskedwhen=True, clip=False, axis=0):
-        out = self.copy(contents={})
+    def _foreach(self, function):
+        # apply function to the rows of every column that belong to this table
+        out = self.empty_like()
         for n, x in self._contents.items():
-            out[n] = self._util_pad(x, length, maskedwhen, clip, axis)
+            out[n] = function(x[self._index()])
         return out
 
+    def pad(self, length, maskedwhen=True, clip=False, axis=0):
+        return self._foreach(lambda x: self._util_pad(x, length, maskedwhen, clip, axis))
+
     def regular(self):
         self._valid()
-        pairs = [(n, self._util_regular(x)) for n, x in self.items()]
+        pairs = [(n, self._util_regular(x[self._index()])) for n, x in self._contents.items()]
         out = self.numpy.empty(len(self), [(n, x.dtype, x.shape[1:]) for n, x in pairs])
         for n, x in pairs:
             out[n] = x
@@ -839,10 +831,7 @@ class Table(awkward0.array.base.AwkwardArray):
 
     def _reduce(self, ufunc, identity, dtype):
         if self._hasjagged():
-            out = self.copy(contents={})
-            for n, x in self._contents.items():
-                out[n] = self._util_reduce(x, ufunc, identity, dtype)
-            return out
+            return self._foreach(lambda x: self._util_reduce(x, ufunc, identity, dtype))
 
         else:
             out = self.Table.named({
@@ -862,17 +851,7 @@ class Table(awkward0.array.base.AwkwardArray):
             return out.Row(out, 0)
 
     def _prepare(self, ufunc, identity, dtype):
-        out = self.copy(contents={})
-        for n, x in self._contents.items():
-            if isinstance(x, self.numpy.ndarray):
-                if dtype is None and issubclass(x.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                    dtype = self.numpy.dtype(type(identity))
-                if dtype is not None:
-                    x = x.astype(dtype)
-            else:
-                x = x._prepare(ufunc, identity, dtype)
-            out[n] = x
-        return out
+        return self._foreach(lambda x: self._util_prepare(x, ufunc, identity, dtype))
 
     def argmin(self):
         raise TypeError("cannot call argmin on Table")
@@ -887,16 +866,10 @@ class Table(awkward0.array.base.AwkwardArray):
         return list(self._contents)
 
     def astype(self, dtype):
-        out = self.copy(contents={})
-        for n, x in self._contents.items():
-            out[n] = x.astype(dtype)
-        return out
+        return self._foreach(lambda x: x.astype(dtype))
 
     def fillna(self, value):
-        out = self.copy(contents={})
-        for n, x in self._contents.items():
-            out[n] = self._util_fillna(x, value)
-        return out
+        return self._foreach(lambda x: self._util_fillna(x, value))
 
     @classmethod
     def _concatenate_axis0(cls, tables):
-- 
2.43.0


From 4ff3653e5bb1f590bb6937b7e3b1c5fc7831597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 100/181] fix: concatenate Tables with columns of different
 lengths or types

---
 awkward0/array/table.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index e9e63e2..c3de20f 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -880,13 +880,11 @@ class Table(awkward0.array.base.AwkwardArray):
         out = tables[0].deepcopy(contents=OrderedDict())
 
         for n in tables[0]._contents:
-            content_type = type(tables[0]._contents[n])
-            if content_type == cls.numpy.ndarray:
-                concatenate = cls.numpy.concatenate
+            columns = [t._contents[n][t._index()] for t in tables]
+            if all(isinstance(x, cls.numpy.ndarray) for x in columns):
+                out._contents[n] = cls.numpy.concatenate(columns)
             else:
-                concatenate = content_type.concatenate
-
-            out._contents[n] = concatenate([t[n] for t in tables], axis=0)
+                out._contents[n] = cls.concatenate(columns)
 
         out._valid()
         return out
-- 
2.43.0


From 4c547757e60228cc187d1a193e5d87c18b02cf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 101/181] fix: reduce lists, masked and sparse arrays of a
 selected Table

---
 awkward0/array/indexed.py |  5 +----
 awkward0/array/jagged.py  | 10 ++--------
 awkward0/array/masked.py  | 15 +++------------
 3 files changed, 6 insertions(+), 24 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index a9ae83e..c86958e 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -730,10 +730,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)
-            return out._reduce(ufunc, identity, dtype)
+            return self._content._foreach(lambda x: self.copy(content=x))._reduce(ufunc, identity, dtype)
 
         elif isinstance(self._content, self.numpy.ndarray):
             return self._util_reduce(self.dense, ufunc, identity, dtype)
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index b28e948..42bbd37 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1502,10 +1502,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents=[])
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)._reduce(ufunc, identity, dtype)
-            return out
+            return self._content._foreach(lambda x: self.copy(content=x)._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.base.AwkwardArray):
             thyself = self.copy(content=self._content._prepare(ufunc, identity, dtype))
@@ -1534,10 +1531,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             thyself = self.copy()
 
         if isinstance(thyself._content, awkward0.array.table.Table):
-            out = thyself._content.copy(contents=[])
-            for n, x in thyself._content._contents.items():
-                out[n] = thyself.copy(content=x)._reduce(ufunc, identity, dtype)
-            return out
+            return thyself._content._foreach(lambda x: thyself.copy(content=x)._reduce(ufunc, identity, dtype))
 
         if len(thyself._starts.shape) > 1:
             thyself._stops = thyself.stops.reshape(-1)
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 9880925..2e59294 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -321,20 +321,14 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)
-            return out._reduce(ufunc, identity, dtype)
+            return self._content._foreach(lambda x: self.copy(content=x))._reduce(ufunc, identity, dtype)
 
         else:
             return self._util_reduce(self._prepare(ufunc, identity, dtype), ufunc, identity, None)
 
     def _prepare(self, ufunc, identity, dtype):
         if isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)._prepare(ufunc, identity, dtype)
-            return out
+            return self._content._foreach(lambda x: self.copy(content=x)._prepare(ufunc, identity, dtype))
 
         if len(self._content) != len(self):
             return self.copy(content=self._content[:len(self)])._prepare(ufunc, identity, dtype)
@@ -843,10 +837,7 @@ class IndexedMaskedArray(MaskedArray):
 
     def _prepare(self, ufunc, identity, dtype):
         if isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)._prepare(ufunc, identity, dtype)
-            return out
+            return self._content._foreach(lambda x: self.copy(content=x)._prepare(ufunc, identity, dtype))
 
         content = self._util_prepare(self._content, ufunc, identity, dtype)
         if ufunc is None:
-- 
2.43.0


From 0ac9a05b50ac139afb9bee461685c79a1410ea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 102/181] fix: copies of a VirtualArray have their own cache
 key and generator; deep copies copy the cached array

---
 awkward0/array/virtual.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index ae2da96..3c5acd8 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -80,11 +80,42 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             out.nbytes = nbytes
         if persistvirtual is not None:
             out.persistvirtual = persistvirtual
+        if generator is not None or args is not None or kwargs is not None:
+            out._array = None if out._cache is None else out.key
+        elif out._cache is not None:
+            # keys identify only one VirtualArray, so the copy gets its own
+            held = self._held()
+            out._array = out.key
+            if held is not None:
+                out._store(held)
         return out
 
+    def _held(self):
+        # the array if it is materialized, None otherwise
+        if self._array is None:
+            return None
+        elif not isinstance(self._array, (VirtualArray.TransientKey, awkward0.util.string)):
+            return self._array
+        elif self._cache is None:
+            return None
+        else:
+            try:
+                return self._cache[self._array]
+            except KeyError:
+                return None
+
+    def _store(self, array):
+        if self._cache is None:
+            self._array = array
+        else:
+            self._array = self.key
+            self._cache[self._array] = array
+
     def deepcopy(self, generator=None, args=None, kwargs=None, cache=None, persistentkey=None, type=None, nbytes=None, persistvirtual=None):
         out = self.copy(generator=generator, args=args, kwargs=kwargs, cache=cache, persistentkey=persistentkey, type=type, nbytes=nbytes, persistvirtual=persistvirtual)
-        out._array = self._util_deepcopy(out._array)
+        held = out._held()
+        if held is not None:
+            out._store(self._util_deepcopy(held))
         if out._setitem is not None:
             for n in list(out._setitem):
                 out._setitem[n] = self._util_deepcopy(out._setitem[n])
-- 
2.43.0


From a4e42f5907a728f870ff8d8f301125778e246132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 103/181] fix: VirtualArray.ismaterialized if a cache was added
 after materialization

---
 awkward0/array/virtual.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 3c5acd8..d7a2ad4 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -348,10 +348,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
 
     @property
     def ismaterialized(self):
-        if self._cache is None:
-            return isinstance(self._array, (self.numpy.ndarray, awkward0.array.base.AwkwardArray))
-        else:
-            return self._array is not None and self._array in self._cache
+        return self._held() is not None
 
     def materialize(self):
         array = self._util_toarray(self._generator(*self._args, **self._kwargs), self.DEFAULTTYPE)
-- 
2.43.0


From 6680a20450aec3525887864aecea45cb40c717ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 104/181] fix: columns assigned to or deleted from a
 VirtualArray are replayed in the right order, without changing the
 generator's array

---
 awkward0/array/virtual.py | 62 ++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index d7a2ad4..38012e1 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -352,12 +352,16 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
 
     def materialize(self):
         array = self._util_toarray(self._generator(*self._args, **self._kwargs), self.DEFAULTTYPE)
+        if self._setitem is not None or self._delitem is not None:
+            array = self._columncopy(array, {})
+        if self._delitem is not None:
+            columns = self._util_columns_descend(array, set())
+            for n in self._delitem:
+                if n in columns:
+                    del array[n]
         if self._setitem is not None:
             for n, x in self._setitem.items():
                 array[n] = x
-        if self._delitem is not None:
-            for n in self._delitem:
-                del array[n]
 
         if self._type is not None:
             materializedtype = awkward0.type.fromarray(array)
@@ -365,16 +369,26 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                 (not isinstance(self._type, awkward0.type.Type) and not self._type == materializedtype)):
                 raise TypeError("materialized array has type\n\n{0}\n\nexpected type\n\n{1}".format(awkward0.type._str(awkward0.type.fromarray(array), indent="    "), awkward0.type._str(self._type, indent="    ")))
 
-        if self._cache is None:
-            # states (1), (2), and (6)
-            self._array = array
-        else:
-            # states (3) and (4)
-            self._array = self.key
-            self._cache[self._array] = array
-
+        self._store(array)
         return array
 
+    @classmethod
+    def _columncopy(cls, array, seen):
+        # a shallow copy whose Tables can gain or lose columns without affecting the original
+        import awkward0.array.table
+        if isinstance(array, cls.numpy.ndarray):
+            return array if array.dtype.fields is None else array.copy()
+        if id(array) not in seen:
+            out = seen[id(array)] = array.copy()
+            if not isinstance(array, (awkward0.array.table.Table, VirtualArray)):
+                if getattr(out, "_content", None) is not None:
+                    out._content = cls._columncopy(out._content, seen)
+                if getattr(out, "_contents", None) is not None:
+                    out._contents = [cls._columncopy(x, seen) for x in out._contents]
+                if getattr(out, "_chunks", None) is not None:
+                    out._chunks = [cls._columncopy(x, seen) for x in out._chunks]
+        return seen[id(array)]
+
     def __del__(self):
         # TransientKeys are based on runtime ids, which Python may reuse after an object is garbage collected
         # they *MUST* be removed from the cache to avoid confusion; persistentkeys can (and should) stay in
@@ -397,23 +411,31 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         return self.array[where]
 
     def __setitem__(self, where, what):
-        self.array[where] = what
+        array = self._columncopy(self.array, {})
+        array[where] = what
+        self._store(array)
         if self._type is not None:
-            self._type = awkward0.type.fromarray(self.array)
+            self._type = awkward0.type.fromarray(array)
         if self._setitem is None:
             self._setitem = OrderedDict()
-        self._setitem[where] = what
+        if not isinstance(where, awkward0.util.string) and self._util_isstringslice(where):
+            self._setitem.update(zip(where, what.unzip()))
+        else:
+            self._setitem[where] = what
 
     def __delitem__(self, where):
-        del self.array[where]
+        array = self._columncopy(self.array, {})
+        del array[where]
+        self._store(array)
         if self._type is not None:
-            self._type = awkward0.type.fromarray(self.array)
-        if self._setitem is not None and where in self._setitem:
-            del self._setitem
+            self._type = awkward0.type.fromarray(array)
         if self._delitem is None:
             self._delitem = []
-        if where not in self._delitem:
-            self._delitem.append(where)
+        for n in [where] if isinstance(where, awkward0.util.string) else where:
+            if self._setitem is not None:
+                self._setitem.pop(n, None)
+            if n not in self._delitem:
+                self._delitem.append(n)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
-- 
2.43.0


From 32d0da0d1d47d7249547be6e27ca0919a24bf8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 105/181] fix: length of a VirtualArray of any kind of array

---
 awkward0/array/virtual.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 38012e1..4d1f2ed 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -295,7 +295,10 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             self._nbytes = value
 
     def __len__(self):
-        return self.shape[0]
+        if self._type is None or self.ismaterialized:
+            return len(self.array)
+        else:
+            return self._type.shape[0]
 
     def _valid(self):
         if self.check_whole_valid:
-- 
2.43.0


From ed3441fec9aacb6e52059a462186cc73b09341bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 106/181] fix: elementwise functions of jagged arrays and
 one-value-per-list arrays of other kinds (virtual, masked, indexed, ...)

---
 awkward0/array/jagged.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 42bbd37..6934b18 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -975,6 +975,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         import awkward0.array.objects
         import awkward0.array.table
+        import awkward0.array.virtual
 
         if "out" in kwargs:
             raise NotImplementedError("in-place operations not supported")
@@ -982,6 +983,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if method != "__call__":
             return NotImplemented
 
+        inputs = [x.array if isinstance(x, awkward0.array.virtual.VirtualArray) else x for x in inputs]
+
         starts, stops = None, None
         for i in range(len(inputs)):
             if isinstance(inputs[i], JaggedArray):
@@ -1053,6 +1056,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                             content[n] = recurse(x[n])
                         return content
 
+                    elif isinstance(x, awkward0.array.base.AwkwardArray) and len(x) > 0:
+                        return x[parents if good is None else self.numpy.where(good, parents, 0)]
+
                     elif good is None:
                         if len(x.shape) == 0:
                             content = self.numpy.full(len(parents), x, dtype=x.dtype)
-- 
2.43.0


From 6707ece358e7d2d542c368ddaeab3a93015921eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 107/181] fix: fromiter lost objects without attributes among
 objects of the same class with attributes

---
 awkward0/generate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/generate.py b/awkward0/generate.py
index 890e979..9bee9a0 100644
--- a/awkward0/generate.py
+++ b/awkward0/generate.py
@@ -248,7 +248,7 @@ class ObjectFillable(Fillable):
         self.content.clear()
 
     def matches(self, tpe):
-        return isinstance(tpe, tuple) and len(tpe) == 2 and tpe[1] is self.cls and (len(tpe[0]) == 0 or self.content.matches(tpe[0]))
+        return isinstance(tpe, tuple) and len(tpe) == 2 and tpe[1] is self.cls and self.content.matches(JaggedFillable if len(tpe[0]) == 0 else tpe[0])
 
     def append(self, obj, tpe):
         if tpe is None:
-- 
2.43.0


From b0f64feb456acb212618776ffa7d1d98fc6d9ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 108/181] fix: fromiter with dictencoding dropped null
 characters at the end of strings

---
 awkward0/generate.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/awkward0/generate.py b/awkward0/generate.py
index 9bee9a0..a2166f3 100644
--- a/awkward0/generate.py
+++ b/awkward0/generate.py
@@ -138,6 +138,12 @@ class SimpleFillable(Fillable):
         else:
             return UnionFillable(self, self.awkwardlib).append(obj, tpe)
 
+    def dictionary(self):
+        # not numpy.unique, which drops the null characters at the end of strings
+        dictionary = sorted(set(self.data))
+        lookup = dict((x, i) for i, x in enumerate(dictionary))
+        return dictionary, self.awkwardlib.numpy.array([lookup[x] for x in self.data], dtype=self.awkwardlib.IndexedArray.INDEXTYPE)
+
 class BoolFillable(SimpleFillable):
     def finalize(self, **options):
         return self.awkwardlib.numpy.array(self.data, dtype=self.awkwardlib.JaggedArray.BOOLTYPE)
@@ -150,7 +156,7 @@ class BytesFillable(SimpleFillable):
     def finalize(self, **options):
         dictencoding = options.get("dictencoding", False)
         if (callable(dictencoding) and dictencoding(self.data)) or (not callable(dictencoding) and dictencoding):
-            dictionary, index = self.awkwardlib.numpy.unique(self.data, return_inverse=True)
+            dictionary, index = self.dictionary()
             return self.awkwardlib.IndexedArray(index, self.awkwardlib.StringArray.fromiter(dictionary, encoding=None))
         else:
             return self.awkwardlib.StringArray.fromiter(self.data, encoding=None)
@@ -159,7 +165,7 @@ class StringFillable(SimpleFillable):
     def finalize(self, **options):
         dictencoding = options.get("dictencoding", False)
         if (callable(dictencoding) and dictencoding(self.data)) or (not callable(dictencoding) and dictencoding):
-            dictionary, index = self.awkwardlib.numpy.unique(self.data, return_inverse=True)
+            dictionary, index = self.dictionary()
             return self.awkwardlib.IndexedArray(index, self.awkwardlib.StringArray.fromiter(dictionary, encoding="utf-8"))
         else:
             return self.awkwardlib.StringArray.fromiter(self.data, encoding="utf-8")
-- 
2.43.0


From ed8f08802da1999365a2d0a7c50ed0d689caed2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 109/181] fix: fromiter rounded integers that do not fit one
 integer type

---
 awkward0/generate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/awkward0/generate.py b/awkward0/generate.py
index a2166f3..36c644b 100644
--- a/awkward0/generate.py
+++ b/awkward0/generate.py
@@ -150,7 +150,11 @@ class BoolFillable(SimpleFillable):
 
 class NumberFillable(SimpleFillable):
     def finalize(self, **options):
-        return self.awkwardlib.numpy.array(self.data)
+        out = self.awkwardlib.numpy.array(self.data)
+        if issubclass(out.dtype.type, (self.awkwardlib.numpy.floating, self.awkwardlib.numpy.object_)) and all(isinstance(x, numbers.Integral) for x in self.data) and len(self.data) > 0:
+            # no integer type holds all of them
+            out = self.awkwardlib.numpy.array([x.item() if isinstance(x, awkward0.numpy.integer) else x for x in self.data], dtype=object)
+        return out
 
 class BytesFillable(SimpleFillable):
     def finalize(self, **options):
-- 
2.43.0


From 7dad9ca765c7d0d6ff35b174dd34ef36dcc8f66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 110/181] fix: types with shared or cyclic parts were not equal
 to themselves

---
 awkward0/type.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index b0b1c3d..98d43d0 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -331,10 +331,10 @@ class ArrayType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True            # already being compared: equal unless a difference is found elsewhere
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, ArrayType) and self._takes == other._takes:
                 return self._eq2(self._to, other._to, seen, ignoremask=ignoremask)
             else:
@@ -424,10 +424,10 @@ class TableType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True            # already being compared: equal unless a difference is found elsewhere
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, TableType) and sorted(self._fields) == sorted(other._fields):
                 for n in self._fields:
                     if not self._eq2(self._fields[n], other._fields[n], seen, ignoremask=ignoremask):
@@ -509,10 +509,10 @@ class UnionType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True            # already being compared: equal unless a difference is found elsewhere
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, UnionType) and len(self._possibilities) == len(other._possibilities):
                 for x, y in zip(sorted(self._possibilities), sorted(self._possibilities)):
                     if not self._eq2(x, y, seen, ignoremask=ignoremask):
@@ -591,10 +591,10 @@ class OptionType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True            # already being compared: equal unless a difference is found elsewhere
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, OptionType):
                 if self._eq2(self._type, other._type, seen, ignoremask=ignoremask):
                     return True
-- 
2.43.0


From 6c451af5961667f85753ec7ef2b3585a5a744afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 111/181] fix: equality of union types compared one of them
 with itself, and failed for nested types

---
 awkward0/type.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index 98d43d0..d930534 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -514,14 +514,22 @@ class UnionType(Type):
         else:
             seen.add((id(self), id(other)))
             if isinstance(other, UnionType) and len(self._possibilities) == len(other._possibilities):
-                for x, y in zip(sorted(self._possibilities), sorted(self._possibilities)):
-                    if not self._eq2(x, y, seen, ignoremask=ignoremask):
-                        return False
-                else:
-                    return True    # nothing failed in the loop over possibilities
+                return self._eqpossibilities(self._possibilities, other._possibilities, seen, ignoremask)
             else:
                 return False
 
+    @classmethod
+    def _eqpossibilities(cls, one, two, seen, ignoremask):
+        # match the possibilities in any order; what a failed attempt assumed is discarded
+        if len(one) == 0:
+            return True
+        for i in range(len(two)):
+            attempt = set(seen)
+            if cls._eq2(one[0], two[i], attempt, ignoremask=ignoremask) and cls._eqpossibilities(one[1:], two[:i] + two[i + 1:], attempt, ignoremask):
+                seen.update(attempt)
+                return True
+        return False
+
     def __hash__(self):
         return hash((UnionType, tuple(self._possibilities)))
 
@@ -596,7 +604,9 @@ class OptionType(Type):
         else:
             seen.add((id(self), id(other)))
             if isinstance(other, OptionType):
-                if self._eq2(self._type, other._type, seen, ignoremask=ignoremask):
+                attempt = set(seen)
+                if self._eq2(self._type, other._type, attempt, ignoremask=ignoremask):
+                    seen.update(attempt)
                     return True
             if ignoremask:    # applied asymmetrically; only the left can ignore mask
                 return self._eq2(self._type, other, seen, ignoremask=ignoremask)
-- 
2.43.0


From 54477453b8ff53cfbeb724ed457486ac827bec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 112/181] fix: the canonical form of a type depended on how
 deeply it was nested

---
 awkward0/type.py | 76 ++++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index d930534..eb21cdb 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -138,49 +138,49 @@ class Type(object):
 
     @staticmethod
     def _canonical(x, seen):
-        if id(x) not in seen:
-            # apply string-integer commutation so that TableTypes are nested as deeply as possible
-            if isinstance(x, TableType) and len(x._fields) > 0 and all(isinstance(y, ArrayType) for y in x._fields.values()):
-                newtable = TableType.__new__(TableType)
-                newtable._fields = OrderedDict()
-                first = None
-                for n, y in x._fields.items():
-                    if first is None:
-                        first = y._takes
-                    elif first != y._takes or math.isinf(y._takes):
-                        break
-                    newtable._fields[n] = y._to
-                else:
-                    x = ArrayType.__new__(ArrayType)
-                    x._takes = first
+        # changes x (a copy) in place, innermost types first, so that shared and cyclic parts stay shared
+        if isinstance(x, Type) and id(x) not in seen:
+            seen.add(id(x))
+
+            if isinstance(x, ArrayType):
+                Type._canonical(x._to, seen)
+
+            elif isinstance(x, TableType):
+                for y in x._fields.values():
+                    Type._canonical(y, seen)
+
+                # apply string-integer commutation so that TableTypes are nested as deeply as possible
+                takes = [y._takes if isinstance(y, ArrayType) else None for y in x._fields.values()]
+                if len(takes) > 0 and takes[0] is not None and not math.isinf(takes[0]) and all(y == takes[0] for y in takes) and not any(y is x for y in x._fields.values()):
+                    newtable = TableType.__new__(TableType)
+                    newtable._fields = OrderedDict((n, y._to) for n, y in x._fields.items())
+                    del x._fields
+                    x.__class__ = ArrayType
+                    x._takes = takes[0]
                     x._to = newtable
+                    Type._canonical(newtable, seen)
 
-            # apply union(X, union(Y)) == union(X, Y)
-            if isinstance(x, UnionType) and any(isinstance(y, UnionType) for y in x._possibilities):
-                possibilities = []
+            elif isinstance(x, UnionType):
                 for y in x._possibilities:
-                    if isinstance(y, UnionType):
-                        possibilities.extend(y._possibilities)
-                    else:
-                        possibilities.append(y)
-                x = UnionType.__new__(UnionType)
-                x._possibilities = possibilities
+                    Type._canonical(y, seen)
 
-            # apply optional(optional(X)) == optional(X)
-            if isinstance(x, OptionType) and isinstance(x._type, OptionType):
-                x = x._type
+                # apply union(X, union(Y)) == union(X, Y)
+                possibilities = []
+                def flatten(union, outer):
+                    for y in union._possibilities:
+                        if not isinstance(y, UnionType):
+                            possibilities.append(y)
+                        elif not any(y is z for z in outer):
+                            flatten(y, outer + [y])
+                flatten(x, [x])
+                x._possibilities = possibilities
 
-            seen.add(id(x))
-            if isinstance(x, ArrayType):
-                x._to = Type._canonical(x._to, seen)
-            elif isinstance(x, TableType):
-                for n in x._fields:
-                    x._fields[n] = Type._canonical(x._fields[n], seen)
-            elif isinstance(x, UnionType):
-                for i in range(len(x._possibilities)):
-                    x._possibilities[i] = Type._canonical(x._possibilities[i], seen)
             elif isinstance(x, OptionType):
-                x._type = Type._canonical(x._type, seen)
+                Type._canonical(x._type, seen)
+
+                # apply optional(optional(X)) == optional(X)
+                while isinstance(x._type, OptionType) and x._type is not x and x._type._type is not x._type:
+                    x._type = x._type._type
 
         return x
 
@@ -347,7 +347,7 @@ class TableType(Type):
     def __init__(self, **fields):
         self._fields = OrderedDict()
         for n, x in fields.items():
-            self._fields[n] = x
+            self[n] = x
 
     @property
     def shape(self):
-- 
2.43.0


From 7ad786565c372d80e31528b8b8819264fc490519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 113/181] fix: equal types could have different hashes, and
 hashing cyclic types did not end

---
 awkward0/type.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index eb21cdb..6dbb29a 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -195,10 +195,33 @@ class Type(object):
     def __ne__(self, other):
         return not self.__eq__(other)
 
+    def __hash__(self):
+        return Type._hash(Type._canonical(Type._copy(self, {}), set()), 5)
+
+    @staticmethod
+    def _hash(x, depth):
+        # must not depend on more than __eq__ does: a limited depth, because types may be cyclic
+        if isinstance(x, Type) and depth == 0:
+            return 0
+        elif isinstance(x, ArrayType):
+            return hash((ArrayType, x._takes, Type._hash(x._to, depth - 1)))
+        elif isinstance(x, TableType):
+            return hash((TableType, tuple((n, Type._hash(x._fields[n], depth - 1)) for n in sorted(x._fields))))
+        elif isinstance(x, UnionType):
+            return hash((UnionType, tuple(sorted(Type._hash(y, depth - 1) for y in x._possibilities))))
+        elif isinstance(x, OptionType):
+            return hash((OptionType, Type._hash(x._type, depth - 1)))
+        elif callable(x):
+            return 0
+        else:
+            return hash(x)
+
     @staticmethod
     def _eq2(one, two, seen, ignoremask=False):
         if isinstance(one, Type):
             return one._eq(two, seen, ignoremask=ignoremask)
+        elif isinstance(one, numpy.dtype) or isinstance(two, numpy.dtype):
+            return isinstance(one, numpy.dtype) and isinstance(two, numpy.dtype) and one == two
         elif one == two:
             return True
         elif callable(one) and callable(two):
@@ -340,9 +363,6 @@ class ArrayType(Type):
             else:
                 return False
 
-    def __hash__(self):
-        return hash((ArrayType, self._takes, self._to))
-
 class TableType(Type):
     def __init__(self, **fields):
         self._fields = OrderedDict()
@@ -437,9 +457,6 @@ class TableType(Type):
             else:
                 return False
 
-    def __hash__(self):
-        return hash((TableType, tuple((n, self._fields[n]) for n in sorted(self._fields))))
-
 class UnionType(Type):
     def __init__(self, *possibilities):
         self._possibilities = []
@@ -530,9 +547,6 @@ class UnionType(Type):
                 return True
         return False
 
-    def __hash__(self):
-        return hash((UnionType, tuple(self._possibilities)))
-
 class OptionType(Type):
     def __init__(self, type):
         self.type = type
@@ -613,9 +627,6 @@ class OptionType(Type):
             else:
                 return False
 
-    def __hash__(self):
-        return hash((OptionType, self._type))
-
 ###############################################################################
 
 def fromnumpy(shape, dtype, masked=False):
-- 
2.43.0


From 45cbeb9e26b2089b4d7deb662d3e2a2bf976d8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 114/181] fix: storing a Table lost the name of its rows
 (tuples became records)

---
 awkward0/array/table.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index c3de20f..949d8d1 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -296,8 +296,10 @@ class Table(awkward0.array.base.AwkwardArray):
         return out
 
     @classmethod
-    def frompairs(cls, pairs, rowstart=0):
+    def frompairs(cls, pairs, rowstart=0, rowname=None):
         out = cls()
+        if rowname is not None:
+            out.rowname = rowname
         for n, x in pairs:
             out[n] = x
         out._rowstart = rowstart
@@ -372,7 +374,8 @@ class Table(awkward0.array.base.AwkwardArray):
                 [n, serializer(x, "Table.contents")]
                 for n, x in self._contents.items()
             ]},
-            {"json": self.rowstart}
+            {"json": self.rowstart},
+            *([{"json": self.rowname}] if self.rowname != type(self)().rowname else [])
         )
         if isinstance(self._view, tuple):
             start, step, length = self._view
-- 
2.43.0


From dd1db13faacc028f1facf7b07d7c1c3ffc9e86b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 115/181] fix: Tables viewed by index referred to parts that
 are not read yet

---
 awkward0/array/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 949d8d1..411dcf9 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -368,6 +368,9 @@ class Table(awkward0.array.base.AwkwardArray):
 
     def __awkward_serialize__(self, serializer):
         self._valid()
+        # the view is read back before the contents, so it has to be written before the contents
+        if isinstance(self._view, self.numpy.ndarray):
+            view = serializer(self._view, "Table.view")
         out = serializer.encode_call(
             ["awkward0", "Table", "frompairs"],
             {"pairs": [
@@ -392,7 +395,7 @@ class Table(awkward0.array.base.AwkwardArray):
         elif isinstance(self._view, self.numpy.ndarray):
             out = serializer.encode_call(
                 ["awkward0", "Table", "fromview"],
-                serializer(self._view, "Table.view"),
+                view,
                 out
             )
 
-- 
2.43.0


From 0a1ee10212b0f9d4ed4c054d7ff40520aa3c5f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 116/181] fix: Tables containing themselves could not be
 restored

---
 awkward0/array/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 411dcf9..87b4edf 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -301,7 +301,10 @@ class Table(awkward0.array.base.AwkwardArray):
         if rowname is not None:
             out.rowname = rowname
         for n, x in pairs:
-            out[n] = x
+            if isinstance(x, awkward0.array.base.AwkwardArray):
+                out._contents[n] = x     # may be part of a cycle: its length might not be known yet
+            else:
+                out[n] = x
         out._rowstart = rowstart
         return out
 
-- 
2.43.0


From 15887500d438b37b82a337ed13fead37b3c73e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 117/181] fix: storing a ChunkedArray without items lost its
 type

---
 awkward0/array/chunked.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 6b92b59..b9fc7b4 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -58,14 +58,16 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def __awkward_serialize__(self, serializer):
         self.knowchunksizes()
         self._valid()
+        chunks = [(c, x) for c, x in zip(self._chunksizes, self._chunks) if c > 0]
+        if len(chunks) == 0:
+            chunks = list(zip(self._chunksizes, self._chunks))[:1]     # only for its type
         return serializer.encode_call(
             ["awkward0", "ChunkedArray"],
             dict(list=[
                 serializer(x, "ChunkedArray.chunk")
-                for c, x in zip(self._chunksizes, self._chunks)
-                if c > 0
+                for c, x in chunks
             ]),
-            serializer.encode_json([int(c) for c in self._chunksizes if c > 0]),
+            serializer.encode_json([int(c) for c, x in chunks]),
         )
 
     @property
-- 
2.43.0


From b7400ad8d557c1b238061c0cdcc0cc51b37dffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 118/181] fix: columns assigned to or deleted from a persistent
 VirtualArray were lost in its stored form

---
 awkward0/array/virtual.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 4d1f2ed..ed7b355 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -139,6 +139,13 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         else:
             return self.array.ones_like(**overrides)
 
+    @classmethod
+    def frommodified(cls, virtual, setitem, delitem):
+        # columns assigned and deleted, to be replayed when the array is materialized
+        virtual._setitem = OrderedDict(setitem) if len(setitem) > 0 else None
+        virtual._delitem = list(delitem) if len(delitem) > 0 else None
+        return virtual
+
     def __awkward_serialize__(self, serializer):
         self._valid()
 
@@ -168,6 +175,13 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                 others["type"]["whitelistable"] = True
             if others:
                 out["kwargs"] = others
+            if self._setitem is not None or self._delitem is not None:
+                out = serializer.encode_call(
+                    ["awkward0", "VirtualArray", "frommodified"],
+                    out,
+                    {"pairs": [[n, serializer(x, "VirtualArray.setitem")] for n, x in (self._setitem or {}).items()]},
+                    {"json": self._delitem or []},
+                )
         else:
             out = serializer(self.array, "VirtualArray.array")
             out.pop("id")
-- 
2.43.0


From eabe4dc09c7cd9e1fd8e2a5832ab84855ed1e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 119/181] fix: arrays whose items have no size could not be
 restored from their stored form

---
 awkward0/persist.py | 3 +++
 awkward0/util.py    | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index e96ccca..2e6c478 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -492,6 +492,9 @@ class BlobSerializer(Serializer):
         else:
             buf = self._put_raw(obj.ravel(), ref=obj)
 
+        if dtype.itemsize == 0:
+            # numpy.frombuffer refuses items without size
+            return self.encode_call(["awkward0.util", "frombuffer"], buf, self(dtype), self(obj.shape[0]))
         return self.encode_call(["awkward0", "numpy", "frombuffer"], buf, self(dtype), self(obj.shape[0]))
 
 def serialize(obj, storage, name="", delimiter="-", **kwargs):
diff --git a/awkward0/util.py b/awkward0/util.py
index 358c664..95ad968 100644
--- a/awkward0/util.py
+++ b/awkward0/util.py
@@ -25,7 +25,11 @@ else:
     string = str
     unicode = str
 
-frombuffer = numpy.frombuffer
+def frombuffer(buffer, dtype=float, count=-1, offset=0):
+    if numpy.dtype(dtype).itemsize == 0:
+        # numpy.frombuffer refuses items without size
+        return numpy.empty(max(count, 0), dtype=dtype)
+    return numpy.frombuffer(buffer, dtype=dtype, count=count, offset=offset)
 
 def toarray(value, defaultdtype, passthrough=None):
     import awkward0.array.base
-- 
2.43.0


From 2c84730079e987a5f070f37a41e2b33b50386f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 120/181] fix: pickling an array with numbers in non-native
 byte order corrupted them

---
 awkward0/persist.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 2e6c478..1797c55 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -490,7 +490,10 @@ class BlobSerializer(Serializer):
                 buf = self.encode_call(policy.dec, self._put_raw(policy.enc(obj.ravel()), ref=obj))
                 break
         else:
-            buf = self._put_raw(obj.ravel(), ref=obj)
+            raw = obj.ravel()
+            if not raw.dtype.isnative:
+                raw = raw.view(numpy.uint8)     # pickle would exchange the bytes of the array, but not of its description
+            buf = self._put_raw(raw, ref=obj)
 
         if dtype.itemsize == 0:
             # numpy.frombuffer refuses items without size
-- 
2.43.0


From af00dd4b64ffb878a9c1e0243124ae25006473d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 121/181] fix: StringArrays in ASCII, Latin-1 or other
 encodings implemented in C could not be read

---
 awkward0/array/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 826f410..3de9ea8 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -361,7 +361,7 @@ def tostring(x, decoder):
     if decoder is None:
         return x.tostring()
     else:
-        return decoder(x, errors="replace")[0]
+        return decoder(x, "replace")[0]
 
 class StringArray(StringMethods, ObjectArray):
     """
-- 
2.43.0


From c523d5f094f9913091d883bd67fa6f0ef70e3684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 122/181] fix: StringArray.fromstr did not work

---
 awkward0/array/objects.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 3de9ea8..fd4b3c9 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -379,11 +379,9 @@ class StringArray(StringMethods, ObjectArray):
         if encoding is not None:
             encoder = codecs.getencoder(encoding)
             string = encoder(string)[0]
-        content = cls.numpy.empty(length * len(string), dtype=cls.CHARTYPE)
-        for i, x in string:
-            content[0::length] = ord(x)                   # FIXME: use numpy.tile!
+        content = cls.numpy.tile(cls.numpy.frombuffer(string, dtype=cls.CHARTYPE), length)
         counts = cls.numpy.empty(length, dtype=cls.INDEXTYPE)
-        counts[:] = length
+        counts[:] = len(string)
         return cls.fromcounts(counts, content, encoding)
 
     @classmethod
-- 
2.43.0


From 4c3b98dc6497340c1d278562d11e8b1ed5e4629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 123/181] fix: flattening a StringArray lost its encoding

---
 awkward0/array/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index fd4b3c9..e52265c 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -648,7 +648,7 @@ class StringArray(StringMethods, ObjectArray):
         if isinstance(content, awkward0.array.jagged.JaggedArray):
             return self.fromjagged(content, self._encoding)
         else:
-            return self.fromjagged(self.JaggedArray.fromcounts([len(content)], content))
+            return self.fromjagged(self.JaggedArray.fromcounts([len(content)], content), self._encoding)
 
     def pad(self, length, maskedwhen=None, clip=False, axis=0):
         if not self._util_isinteger(axis) or axis < 0:
-- 
2.43.0


From e2ec139183744a17fad237088d5dc8f4af1fee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 124/181] fix: StringArray.pad did not work

---
 awkward0/array/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index e52265c..d8f2671 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -665,7 +665,7 @@ class StringArray(StringMethods, ObjectArray):
             maskedwhen = ord(maskedwhen)
         import awkward0.array.jagged
         import awkward0.array.masked
-        padded = self._util_pad(self._content, length, True, clip)
+        padded = self._util_pad(self._content, length, True, clip, 0)
         assert isinstance(padded, awkward0.array.jagged.JaggedArray)
         assert isinstance(padded.content, awkward0.array.masked.MaskedArray)
         if padded.content.content is self._content.content:
-- 
2.43.0


From 0d561e31e53fa8323bbd93523246a2ab5ddf74e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 125/181] fix: StringArray.fromnumpy misread big-endian arrays
 and refused strided arrays

---
 awkward0/array/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index d8f2671..a502d96 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -389,9 +389,11 @@ class StringArray(StringMethods, ObjectArray):
         if array.dtype.kind == "S":
             encoding = None
         elif array.dtype.kind == "U":
-            encoding = "utf-32le"
+            encoding = "utf-32le" if array.dtype == array.dtype.newbyteorder("<") else "utf-32be"
         else:
             raise TypeError("not a string array")
+        if not array.flags.c_contiguous:
+            array = cls.numpy.ascontiguousarray(array)
 
         starts = cls.numpy.arange(                   0,  len(array)      * array.dtype.itemsize, array.dtype.itemsize)
         stops  = cls.numpy.arange(array.dtype.itemsize, (len(array) + 1) * array.dtype.itemsize, array.dtype.itemsize)
-- 
2.43.0


From bc2c12d84fe308fb642544af18d00cdb112eeeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 126/181] fix: comparing StringArrays with strings, lists,
 numbers or StringArrays in another encoding gave wrong results

---
 awkward0/array/objects.py | 77 +++++++++++++++++++++++++++------------
 1 file changed, 53 insertions(+), 24 deletions(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index a502d96..7707c97 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -318,36 +318,37 @@ class StringMethods(object):
                 raise ValueError("invalid number of arguments")
             left, right = inputs[0], inputs[1]
 
-            if isinstance(left, (str, bytes)):
-                left = self.StringArray.fromstr(len(right), left)
-            elif isinstance(left, self.numpy.ndarray) and (left.dtype.kind == "U" or left.dtype.kind == "S"):
-                left = self.StringArray.fromnumpy(left)
-            elif isinstance(left, self.numpy.ndarray) and left.dtype == self.numpy.dtype(object):
-                left = self.StringArray.fromiter(left)
-            elif not isinstance(left, StringMethods):
-                return self.numpy.zeros(len(right), dtype=self.BOOLTYPE)
-
-            if isinstance(right, (str, bytes)):
-                right = self.StringArray.fromstr(len(left), right)
-            elif isinstance(right, self.numpy.ndarray) and (right.dtype.kind == "U" or right.dtype.kind == "S"):
-                right = self.StringArray.fromnumpy(right)
-            elif isinstance(right, self.numpy.ndarray) and right.dtype == self.numpy.dtype(object):
-                right = self.StringArray.fromiter(right)
+            for x in (left, right):
+                if isinstance(x, awkward0.array.base.AwkwardArray) and not isinstance(x, ObjectArray):
+                    return NotImplemented            # that array applies the function to its content
+
+            if not isinstance(left, StringMethods):
+                left = self._tostrings(left, len(right), right._encoding)
             elif not isinstance(right, StringMethods):
-                return self.numpy.zeros(len(left), dtype=self.BOOLTYPE)
+                right = self._tostrings(right, len(left), left._encoding)
+
+            if left is None or right is None:
+                out = self.numpy.zeros(len(self), dtype=self.BOOLTYPE)
+
+            elif len(left) != len(right):
+                raise ValueError("cannot compare StringArray of length {0} with StringArray of length {1}".format(len(left), len(right)))
 
-            left = self.JaggedArray(left.starts, left.stops, left.content)
-            right = self.JaggedArray(right.starts, right.stops, right.content)
+            elif not (isinstance(left, StringMethods) and isinstance(right, StringMethods)) or not self._samebytes(left._encoding, right._encoding):
+                out = self.numpy.array([x == y for x, y in zip(left, right)], dtype=self.BOOLTYPE)
+
+            else:
+                left = self.JaggedArray(left.starts, left.stops, left.content)
+                right = self.JaggedArray(right.starts, right.stops, right.content)
 
-            maybeequal = (left.counts == right.counts)
+                maybeequal = (left.counts == right.counts)
 
-            leftmask = left[maybeequal]
-            rightmask = right[maybeequal]
+                leftmask = left[maybeequal]
+                rightmask = right[maybeequal]
 
-            reallyequal = (leftmask == rightmask).count_nonzero() == leftmask.counts
+                reallyequal = (leftmask == rightmask).count_nonzero() == leftmask.counts
 
-            out = self.numpy.zeros(len(left), dtype=self.BOOLTYPE)
-            out[maybeequal] = reallyequal
+                out = self.numpy.zeros(len(left), dtype=self.BOOLTYPE)
+                out[maybeequal] = reallyequal
 
             if ufunc is self.numpy.equal:
                 return out
@@ -357,6 +358,34 @@ class StringMethods(object):
         else:
             return super(StringMethods, self).__array_ufunc__(ufunc, method, *inputs, **kwargs)
 
+    @staticmethod
+    def _samebytes(one, two):
+        # whether equal strings are equal bytes (bytes without encoding are only compared as bytes)
+        return one is None or two is None or codecs.lookup(one) == codecs.lookup(two)
+
+    def _tostrings(self, x, length, encoding):
+        # StringArray (or list of Python objects, if they are not all strings) to compare with, None if there is no string in it
+        if isinstance(x, (awkward0.util.string, bytes)):
+            x = [x] * length
+
+        if isinstance(x, self.numpy.ndarray) and len(x.shape) == 1 and x.dtype.kind in ("U", "S"):
+            return self.StringArray.fromnumpy(x)
+
+        elif isinstance(x, (list, tuple)) or (isinstance(x, self.numpy.ndarray) and len(x.shape) == 1 and x.dtype == self.numpy.dtype(object)):
+            x = list(x)
+            if all(isinstance(y, bytes) for y in x):
+                return self.StringArray.fromiter(x, encoding=None)
+            elif all(isinstance(y, (awkward0.util.string, awkward0.util.unicode)) for y in x):
+                try:
+                    return self.StringArray.fromiter(x, encoding="utf-8" if encoding is None else encoding)
+                except UnicodeEncodeError:
+                    return x
+            else:
+                return x
+
+        else:
+            return None
+
 def tostring(x, decoder):
     if decoder is None:
         return x.tostring()
-- 
2.43.0


From e5295b795a815cba697d6fa6cd8a06be7935d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 127/181] fix: functions of the characters of StringArrays did
 not work

---
 awkward0/array/objects.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 7707c97..4e34e8a 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -356,7 +356,13 @@ class StringMethods(object):
                 return self.numpy.logical_not(out)
 
         else:
-            return super(StringMethods, self).__array_ufunc__(ufunc, method, *inputs, **kwargs)
+            import awkward0.array.jagged
+            inputs = [x._content if isinstance(x, StringMethods) else x for x in inputs]
+            result = getattr(ufunc, method)(*inputs, **kwargs)
+            if isinstance(result, awkward0.array.jagged.JaggedArray) and isinstance(result.content, self.numpy.ndarray) and result.content.dtype == self.CHARTYPE:
+                return self.fromjagged(result, self._encoding)
+            else:
+                return result
 
     @staticmethod
     def _samebytes(one, two):
-- 
2.43.0


From f1e5cffe360454d7982b47bc675b85c0ea4bee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 128/181] fix: concatenating StringArrays with different
 encodings misread all but the first

---
 awkward0/array/objects.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 4e34e8a..2f46e0e 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -732,11 +732,18 @@ class StringArray(StringMethods, ObjectArray):
     @classmethod
     def _concatenate_axis0(cls, arrays):
         assert all(isinstance(x, StringArray) for x in arrays)
+        arrays = cls._sameencoding(arrays)
         return cls.fromjagged(cls.JaggedArray.fget(None)._concatenate_axis0([x._content for x in arrays]), encoding=arrays[0]._encoding)
 
+    @classmethod
+    def _sameencoding(cls, arrays):
+        encoding = arrays[0]._encoding
+        return [x if cls._samebytes(x._encoding, encoding) else cls.fromiter(x, encoding=encoding) for x in arrays]
+
     @classmethod
     def _concatenate_axis1(cls, arrays):
         assert all(isinstance(x, StringArray) for x in arrays)
+        arrays = cls._sameencoding(arrays)
         tmp = cls.JaggedArray.fget(None)._concatenate_axis1([x._content for x in arrays])
         tmp._content = tmp._content.astype(cls.CHARTYPE)
         return cls.fromjagged(tmp, encoding=arrays[0]._encoding)
-- 
2.43.0


From f233dd5148b01bb27e2fb32acc81b667768a4501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 129/181] fix: selecting from ChunkedArrays of strings or
 objects by a list of positions

---
 awkward0/type.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index 6dbb29a..14d8021 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -317,7 +317,7 @@ class ArrayType(Type):
         elif isinstance(self._to, numpy.dtype):
             return True
         else:
-            return self._to._isnumpy(seen)
+            return isinstance(self._to, Type) and self._to._isnumpy(seen)
 
     def _hascolumn(self, name, seen):
         if id(self) in seen:
@@ -590,13 +590,15 @@ class OptionType(Type):
         if isinstance(self._type, numpy.dtype):
             return True
         else:
-            return self._type._isnumpy(seen)
+            return isinstance(self._type, Type) and self._type._isnumpy(seen)
 
     def _hascolumn(self, name, seen):
         if id(self) in seen:
             return False
         seen.add(id(self))
-        return self._type._hascolumn(name, seen)
+        if isinstance(self._type, numpy.dtype):
+            return self._type.names is not None and name in self._type.names
+        return isinstance(self._type, Type) and self._type._hascolumn(name, seen)
 
     def _subrepr(self, labeled, seen):
         return "OptionType({0})".format(self._type._repr(labeled, seen) if isinstance(self._type, Type) else repr(self._type))
-- 
2.43.0


From ca8476f36b3221ba624589138ad8f7dd721153f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 130/181] fix: comparing a JaggedArray of strings with one
 string

---
 awkward0/array/jagged.py  | 2 +-
 awkward0/array/objects.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 6934b18..3365892 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1011,7 +1011,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif isinstance(inputs[i], self.numpy.ndarray) and len(inputs[i].shape) == 0:
                 inputs[i] = inputs[i][()]
 
-            elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
+            elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray, awkward0.util.string, bytes)):
                 pass
 
             else:
diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 2f46e0e..b8a8cd4 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -307,6 +307,8 @@ class StringMethods(object):
     """
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
+        import awkward0.array.jagged
+
         if "out" in kwargs:
             raise NotImplementedError("in-place operations not supported")
 
@@ -356,7 +358,6 @@ class StringMethods(object):
                 return self.numpy.logical_not(out)
 
         else:
-            import awkward0.array.jagged
             inputs = [x._content if isinstance(x, StringMethods) else x for x in inputs]
             result = getattr(ufunc, method)(*inputs, **kwargs)
             if isinstance(result, awkward0.array.jagged.JaggedArray) and isinstance(result.content, self.numpy.ndarray) and result.content.dtype == self.CHARTYPE:
-- 
2.43.0


From 3aec98a447b9873062d7bd466aa8f0caf2dd23c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 131/181] fix: StringArray.fromiter of an iterator of bytes

---
 awkward0/array/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index b8a8cd4..8542974 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -462,7 +462,7 @@ class StringArray(StringMethods, ObjectArray):
     @classmethod
     def fromiter(cls, iterable, encoding="utf-8"):
         if encoding is None:
-            encoded = iterable
+            encoded = list(iterable)
         else:
             encoder = codecs.getencoder(encoding)
             encoded = [encoder(x)[0] for x in iterable]
-- 
2.43.0


From 15dccf8e08ad0c2efa7da62cf6af4f9334540e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:33 +0000
Subject: [PATCH 132/181] fix: padding StringArrays of empty strings

---
 awkward0/array/objects.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 8542974..5e8128d 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -706,11 +706,13 @@ class StringArray(StringMethods, ObjectArray):
         padded = self._util_pad(self._content, length, True, clip, 0)
         assert isinstance(padded, awkward0.array.jagged.JaggedArray)
         assert isinstance(padded.content, awkward0.array.masked.MaskedArray)
-        if padded.content.content is self._content.content:
+        if isinstance(padded.content, awkward0.array.masked.IndexedMaskedArray):      # no characters at all
+            chars = self.numpy.empty(len(padded.content), dtype=self.CHARTYPE)
+        elif padded.content.content is self._content.content:
             chars = padded.content.content.copy()
         else:
             chars = padded.content.content
-        chars[padded.content.mask] = maskedwhen
+        chars[padded.content.boolmask()] = maskedwhen
         padded.content = chars
         return self.fromjagged(padded, self._encoding)
 
-- 
2.43.0


From 2aa26b475c581e217255c96f31e5996ba8178c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:52 +0000
Subject: [PATCH 133/181] fix: deep copies of StringArrays shared their offsets
 with the original

---
 awkward0/array/objects.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 5e8128d..306604b 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -540,9 +540,7 @@ class StringArray(StringMethods, ObjectArray):
 
     def deepcopy(self, starts=None, stops=None, content=None, encoding=None):
         out = self.copy(starts=starts, stops=stops, content=content, encoding=encoding)
-        out._content._starts = self._util_deepcopy(out._content._starts)
-        out._content._stops = self._util_deepcopy(out._content._stops)
-        out._content._content = self._util_deepcopy(out._content._content)
+        out._content = self._util_deepcopy(out._content)
         return out
 
     def empty_like(self, **overrides):
-- 
2.43.0


From 5e481d922685f6f739c2007126c33b7f42541f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:52 +0000
Subject: [PATCH 134/181] fix: deep copies of ChunkedArrays shared their
 offsets with the original

---
 awkward0/array/chunked.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index b9fc7b4..3971bf9 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -32,6 +32,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def deepcopy(self, chunks=None, chunksizes=None):
         out = self.copy(chunks=chunks, chunksizes=chunksizes)
         out._chunks = [self._util_deepcopy(x) for x in out._chunks]
+        out._offsets = None
         return out
 
     def _mine(self, overrides):
-- 
2.43.0


From e7dc3f0c825defc73769a74f632311e6cc0f951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:46 +0000
Subject: [PATCH 135/181] fix: columns assigned to a Table after setting its
 contents were also added to the given dict

---
 awkward0/array/table.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 87b4edf..d5e389d 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -417,9 +417,7 @@ class Table(awkward0.array.base.AwkwardArray):
         if self.check_prop_valid:
             if not isinstance(value, dict) or not all(isinstance(n, awkward0.util.string) for n in value):
                 raise TypeError("contents must be a dict from strings to arrays")
-        for n in list(value):
-            value[n] = self._util_toarray(value[n], self.DEFAULTTYPE)
-        self._contents = value
+        self._contents = OrderedDict((n, self._util_toarray(value[n], self.DEFAULTTYPE)) for n in value)
 
     def _getnbytes(self, seen):
         if id(self) in seen:
-- 
2.43.0


From f73a4384093d3b8ca09018d62f77e67a901f7cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:46 +0000
Subject: [PATCH 136/181] fix: assigning a column to a SparseArray never
 returned

---
 awkward0/array/indexed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index c86958e..2cd36eb 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -649,13 +649,13 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             raise ValueError("cannot assign array of length {0} to sparse table of length {1}".format(len(what), self._length))
 
         test = what[self.boolmask(maskedwhen=False)].any()
-        while not isinstance(test, bool):
+        while not isinstance(test, (bool, self.numpy.bool_, self.numpy.bool)):
             test = test.any()
 
         if test:
             raise ValueError("cannot assign an array with non-zero elements in the undefined spots of a sparse table")
 
-        return IndexedArray(self._inverse, what)
+        return IndexedArray(self._index, what)
 
     def __setitem__(self, where, what):
         if isinstance(where, awkward0.util.string):
-- 
2.43.0


From b18007f2aca7a06b2dfcaaec79266f6c3d31b02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 137/181] fix: a function description shorter than a whitelist
 entry does not match it

---
 awkward0/persist.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 1797c55..4d28727 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -63,10 +63,7 @@ def topython(string):
 def spec2function(obj, whitelist=whitelist):
     awkwardlib = "awkward0"
     for white in whitelist:
-        for n, p in zip(obj, white):
-            if not fnmatch.fnmatchcase(n, p):
-                break
-        else:
+        if len(obj) >= 2 and len(obj) >= len(white) and all(fnmatch.fnmatchcase(n, p) for n, p in zip(obj, white)):
             if obj[0] == "awkward0":
                 obj = [awkwardlib] + obj[1:]
             elif obj[0] == "awkward":
-- 
2.43.0


From 935a444b3a3eeb4df2e661b4278c789e2759da09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 138/181] fix: the default whitelist does not name
 awkward0.persist.topython (nor spec2function, deserialize, ...)

---
 awkward0/persist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 4d28727..5839d68 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -37,13 +37,13 @@ whitelist = [
         ["awkward0", "Table"],
         ["awkward0", "numpy", "frombuffer"],
         ["awkward0.util", "frombuffer"],
-        ["awkward0.persist"],
+        ["awkward0.persist", "json2type"],
         ["awkward0.arrow", "_ParquetFile", "fromjson"],
         ["awkward", "*Array"],
         ["awkward", "Table"],
         ["awkward", "numpy", "frombuffer"],
         ["awkward.util", "frombuffer"],
-        ["awkward.persist"],
+        ["awkward.persist", "json2type"],
         ["awkward.arrow", "_ParquetFile", "fromjson"],
         ["uproot3_methods.classes.*"],
         ["uproot3_methods.profiles.*"],
-- 
2.43.0


From 1365002d6eb0b025cc67155b79ff5bc9f373b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 139/181] fix: a single string is a whitelist of one specifier
 (it was compared character by character)

---
 awkward0/persist.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 5839d68..bde9695 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -60,8 +60,16 @@ def frompython(obj):
 def topython(string):
     return pickle.loads(base64.b64decode(string.encode("ascii")))
 
+def _promotewhitelist(whitelist):
+    if isinstance(whitelist, str):
+        whitelist = [whitelist]
+    if len(whitelist) > 0 and isinstance(whitelist[0], str):
+        whitelist = [whitelist]
+    return whitelist
+
 def spec2function(obj, whitelist=whitelist):
     awkwardlib = "awkward0"
+    whitelist = _promotewhitelist(whitelist)
     for white in whitelist:
         if len(obj) >= 2 and len(obj) >= len(white) and all(fnmatch.fnmatchcase(n, p) for n, p in zip(obj, white)):
             if obj[0] == "awkward0":
@@ -521,10 +529,7 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
     if seen is None:
         seen = ObjRef()
 
-    if isinstance(whitelist, str):
-        whitelist = [whitelist]
-    elif len(whitelist) > 0 and isinstance(whitelist[0], str):
-        whitelist = [whitelist]
+    whitelist = _promotewhitelist(whitelist)
 
     def unfill(schema):
         if isinstance(schema, dict):
-- 
2.43.0


From dd20cc31968951b65a206e0ceab9264f638966f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 140/181] fix: stored Python objects are unpickled only if the
 whitelist names awkward0.persist.topython

---
 awkward0/persist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index bde9695..156e9ec 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -575,7 +575,7 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
                 out = schema["json"]
 
             elif "python" in schema:
-                out = topython(schema["python"])
+                out = spec2function(["awkward0.persist", "topython"], whitelist=whitelist)(schema["python"])
 
             elif "ref" in schema:
                 out = seen.obj(schema["ref"])
-- 
2.43.0


From 4a380d7a49cb353b1dc8ed93398950634b0f69de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 141/181] fix: stored types are not read with a whitelist that
 comes with the data

---
 awkward0/persist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 156e9ec..660e340 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -544,6 +544,8 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
                     kwargs["whitelist"] = whitelist
                 if "kwargs" in schema:
                     kwargs.update({n: unfill(x) for n, x in schema["kwargs"].items()})
+                if gen is json2type:
+                    args, kwargs["whitelist"] = args[:1], whitelist      # never one that comes with the data
 
                 out = gen(*args, **kwargs)
 
-- 
2.43.0


From dd65cf018a2f0cb90a2e3c8b5fe304036f25f613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 142/181] fix: numbers that JSON cannot express (infinity, NaN,
 complex) are stored without pickle

---
 awkward0/persist.py | 7 +++++++
 awkward0/util.py    | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 660e340..e75fc56 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -37,6 +37,7 @@ whitelist = [
         ["awkward0", "Table"],
         ["awkward0", "numpy", "frombuffer"],
         ["awkward0.util", "frombuffer"],
+        ["awkward0.util", "scalar"],
         ["awkward0.persist", "json2type"],
         ["awkward0.arrow", "_ParquetFile", "fromjson"],
         ["awkward", "*Array"],
@@ -364,6 +365,12 @@ class Serializer(object):
         except TypeError:
             pass
 
+        if isinstance(obj, (numbers.Complex, numpy.complexfloating, numpy.floating)):
+            value = numpy.array([obj])
+            if issubclass(value.dtype.type, numpy.inexact):
+                # JSON has no infinity, NaN, or complex numbers
+                return self.encode_call(["awkward0.util", "scalar"], self.encode_json(value.dtype.str), self.encode_json(base64.b64encode(value.tobytes()).decode("ascii")))
+
         try:
             return self.encode_python(obj)
         except:
diff --git a/awkward0/util.py b/awkward0/util.py
index 95ad968..3e6128c 100644
--- a/awkward0/util.py
+++ b/awkward0/util.py
@@ -2,6 +2,7 @@
 
 # BSD 3-Clause License; see https://github.com/scikit-hep/awkward-0.x/blob/master/LICENSE
 
+import base64
 import itertools
 import importlib
 import sys
@@ -31,6 +32,9 @@ def frombuffer(buffer, dtype=float, count=-1, offset=0):
         return numpy.empty(max(count, 0), dtype=dtype)
     return numpy.frombuffer(buffer, dtype=dtype, count=count, offset=offset)
 
+def scalar(dtype, data):
+    return numpy.frombuffer(base64.b64decode(data.encode("ascii")), dtype=dtype)[0].item()
+
 def toarray(value, defaultdtype, passthrough=None):
     import awkward0.array.base
     return awkward0.array.base.AwkwardArray._util_toarray(value, defaultdtype, passthrough=passthrough)
-- 
2.43.0


From a98f70ec113fa9aa05c836e0d41a8ab032f225c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 143/181] fix: selecting nothing from a ChunkedArray lost its
 type

---
 awkward0/array/chunked.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 3971bf9..0f3f8fd 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -232,7 +232,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 if tpe is not None and not (isinstance(tpe, tuple) and len(tpe) == 0):
                     break
             else:
-                tpe = self.DEFAULTTYPE
+                tpe = self.DEFAULTTYPE if len(self._chunks) == 0 else awkward0.type.fromarray(self._chunks[0]).to
 
         for i in range(len(self._types)):
             if self._types[i] is None or (isinstance(self._types[i], tuple) and len(self._types[i]) == 0) or self._types[i] is tpe:
@@ -446,8 +446,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     if len(chunk) > 0:
                         chunks.append(chunk)
 
-            if len(chunks) == 0 and len(self._chunks) > 0:
-                chunks.append(self._chunks[0][(slice(0, 0),) + tail])   # so that sliced.type == self.type
+            if len(chunks) == 0:
+                chunks = self._emptychunks(tail)   # so that sliced.type == self.type
 
             return self.copy(chunks=chunks)
 
@@ -455,7 +455,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             head = self._util_toarray(head, self.INDEXTYPE, self.numpy.ndarray)
             if len(head.shape) == 1 and self._util_isintegertype(head.dtype.type):
                 if len(head) == 0:
-                    return self.copy(chunks=[x[(slice(0, 0),) + tail] for x in self._chunks[:1]])
+                    return self.copy(chunks=self._emptychunks(tail))
 
                 chunkid, head = self.global2chunkid(head, return_normalized=True)
 
@@ -507,14 +507,19 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                         if len(x) > 0:
                             chunks.append(x)
 
-                if len(chunks) == 0 and len(self._chunks) > 0:
-                    chunks.append(self._chunks[0][(slice(0, 0),) + tail])   # so that masked.type == self.type
+                if len(chunks) == 0:
+                    chunks = self._emptychunks(tail)   # so that masked.type == self.type
 
                 return self.copy(chunks=chunks)
 
             else:
                 raise TypeError("cannot interpret shape {0}, dtype {1} as a fancy index or mask".format(head.shape, head.dtype))
 
+    def _emptychunks(self, tail):
+        # at most one chunk, with nothing in it but the type of this array
+        chunks = [x for x in self._chunks if len(x) > 0][:1] or self._chunks[:1]
+        return [x[(slice(0, 0),) + tail] for x in chunks]
+
     def _aligned(self, what):
         self.knowchunksizes()
         what.knowchunksizes()
-- 
2.43.0


From 91bcec139a0d24888ccc784bc3488db862009556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 144/181] fix: selecting from a ChunkedArray of Tables by a
 list of positions out of order was refused

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 0f3f8fd..1ddab41 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -475,7 +475,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                         chunks.append(chunk)
                     return self.copy(chunks=chunks)
 
-                elif self._util_isnumpy(self.type):
+                elif self._util_isnumpy(self.type) and (self.type.dtype.names is None or all(isinstance(x, self.numpy.ndarray) for x in self._chunks)):
                     out = self.numpy.empty((len(head),) + self.type.shape[1:], dtype=self.type.dtype)
                     self.knowchunksizes(chunkid.max() + 1)
                     offsets = self.offsets
-- 
2.43.0


From ae6dbdb3e4f004711d6e13d5014f73739263317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 145/181] fix: Arrow structs and unions could not be read with
 versions of pyarrow that have num_fields

---
 awkward0/arrow.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 3a7d08b..0a7f581 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -20,6 +20,9 @@ import awkward0.util
 
 ################################################################################ type conversions
 
+def _numfields(tpe):
+    return tpe.num_fields if hasattr(tpe, "num_fields") else tpe.num_children
+
 def schema2type(schema):
     import pyarrow
 
@@ -33,7 +36,7 @@ def schema2type(schema):
 
         elif isinstance(tpe, pyarrow.lib.StructType):
             out = None
-            for i in range(tpe.num_children):
+            for i in range(_numfields(tpe)):
                 x = awkward0.type.ArrayType(tpe[i].name, recurse(tpe[i].type, tpe[i].nullable))
                 if out is None:
                     out = x
@@ -53,7 +56,7 @@ def schema2type(schema):
 
         elif isinstance(tpe, pyarrow.lib.UnionType):
             out = None
-            for i in range(tpe.num_children):
+            for i in range(_numfields(tpe)):
                 x = recurse(tpe[i].type, nullable)
                 if out is None:
                     out = x
@@ -256,7 +259,7 @@ def fromarrow(obj):
             assert getattr(tpe, "num_buffers", 1) == 1
             mask = buffers.pop(0)
             pairs = []
-            for i in range(tpe.num_children):
+            for i in range(_numfields(tpe)):
                 pairs.append((tpe[i].name, popbuffers(None if array is None else array.field(tpe[i].name), tpe[i].type, buffers, length)))
             out = awkwardlib.Table.frompairs(pairs, 0)   # FIXME: better rowstart
             if mask is not None:
@@ -296,7 +299,7 @@ def fromarrow(obj):
             assert buffers.pop(0) is None
             index = awkwardlib.numpy.arange(len(tags), dtype=ARROW_INDEXTYPE)
             contents = []
-            for i in range(tpe.num_children):
+            for i in range(_numfields(tpe)):
                 try:
                     sublength = index[tags == i][-1] + 1
                 except IndexError:
@@ -321,7 +324,7 @@ def fromarrow(obj):
             tags = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length]
             index = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length]
             contents = []
-            for i in range(tpe.num_children):
+            for i in range(_numfields(tpe)):
                 try:
                     sublength = index[tags == i].max() + 1
                 except ValueError:
-- 
2.43.0


From 90954c22315e2051ff7dfa4da93a0a8c663a21f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 146/181] fix: reading a slice of an Arrow array gave the
 beginning of the whole array

---
 awkward0/arrow.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 0a7f581..e22548b 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -415,7 +415,19 @@ def fromarrow(obj):
         else:
             raise NotImplementedError(repr(tpe))
 
+    def hasoffset(array):
+        if array.offset != 0:
+            return True
+        elif isinstance(array.type, (pyarrow.lib.StructType, pyarrow.lib.UnionType)):
+            return any(hasoffset(array.field(i)) for i in range(_numfields(array.type)))
+        elif hasattr(array, "values"):
+            return hasoffset(array.values)
+        else:
+            return False
+
     if isinstance(obj, pyarrow.lib.Array):
+        if hasoffset(obj):
+            obj = pyarrow.concat_arrays([obj])     # buffers are those of the whole array, not only of the slice
         buffers = obj.buffers()
         out = popbuffers(obj, obj.type, buffers, len(obj))
         assert len(buffers) == 0
-- 
2.43.0


From f63d0327f8712a2726f20914bdd9ca3003f34387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 147/181] fix: sparse Arrow unions could not be read with
 versions of pyarrow that have two buffers for them

---
 awkward0/arrow.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index e22548b..44fd1bc 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -293,10 +293,11 @@ def fromarrow(obj):
                 return out
 
         elif isinstance(tpe, pyarrow.lib.UnionType) and tpe.mode == "sparse":
-            assert getattr(tpe, "num_buffers", 3) == 3
+            assert getattr(tpe, "num_buffers", 3) in (2, 3)
             mask = buffers.pop(0)
             tags = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length]
-            assert buffers.pop(0) is None
+            if getattr(tpe, "num_buffers", 3) == 3:
+                assert buffers.pop(0) is None
             index = awkwardlib.numpy.arange(len(tags), dtype=ARROW_INDEXTYPE)
             contents = []
             for i in range(_numfields(tpe)):
-- 
2.43.0


From 010f17cd1a5bf0776f4f50bd4391150c885e84db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 148/181] fix: dictionaries inside of Arrow unions could not be
 read

---
 awkward0/arrow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 44fd1bc..440be3f 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -305,7 +305,7 @@ def fromarrow(obj):
                     sublength = index[tags == i][-1] + 1
                 except IndexError:
                     sublength = 0
-                contents.append(popbuffers(None, tpe[i].type, buffers, sublength))
+                contents.append(popbuffers(array.field(i) if hasattr(array, "field") else None, tpe[i].type, buffers, sublength))
             for i in range(len(contents)):
                 these = index[tags == i]
                 if len(these) == 0:
@@ -330,7 +330,7 @@ def fromarrow(obj):
                     sublength = index[tags == i].max() + 1
                 except ValueError:
                     sublength = 0
-                contents.append(popbuffers(None, tpe[i].type, buffers, sublength))
+                contents.append(popbuffers(array.field(i) if hasattr(array, "field") else None, tpe[i].type, buffers, sublength))
             for i in range(len(contents)):
                 these = index[tags == i]
                 if len(these) == 0:
-- 
2.43.0


From 38e6915725540fca72dd42f97e88518d0324ff66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 149/181] fix: Arrow dates of 32 bits were read as if they had
 64 bits

---
 awkward0/arrow.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 440be3f..3d02f8d 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -392,6 +392,16 @@ def fromarrow(obj):
             else:
                 return out
 
+        elif tpe == pyarrow.date32():
+            assert getattr(tpe, "num_buffers", 2) == 2
+            mask = buffers.pop(0)
+            out = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=awkwardlib.numpy.int32)[:length].astype("datetime64[D]")
+            if mask is not None:
+                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
+                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
+            else:
+                return out
+
         elif tpe == pyarrow.bool_():
             assert getattr(tpe, "num_buffers", 2) == 2
             mask = buffers.pop(0)
-- 
2.43.0


From 65338b13b01684e08ad62fb105912f39fdeedb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 150/181] fix: the type codes of Arrow unions were taken for
 the positions of their alternatives

---
 awkward0/arrow.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 3d02f8d..19db082 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -241,6 +241,15 @@ def fromarrow(obj):
     ARROW_TAGTYPE = awkwardlib.numpy.uint8
     ARROW_CHARTYPE = awkwardlib.numpy.uint8
 
+    def uniontags(tpe, typecodes):
+        codes = list(getattr(tpe, "type_codes", range(_numfields(tpe))))
+        if codes == list(range(len(codes))):
+            return typecodes
+        tags = awkwardlib.numpy.empty(len(typecodes), dtype=ARROW_TAGTYPE)
+        for i, code in enumerate(codes):
+            tags[typecodes == code] = i
+        return tags
+
     def popbuffers(array, tpe, buffers, length):
         if isinstance(tpe, pyarrow.lib.DictionaryType):
             index = popbuffers(None if array is None else array.indices, tpe.index_type, buffers, length)
@@ -295,7 +304,7 @@ def fromarrow(obj):
         elif isinstance(tpe, pyarrow.lib.UnionType) and tpe.mode == "sparse":
             assert getattr(tpe, "num_buffers", 3) in (2, 3)
             mask = buffers.pop(0)
-            tags = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length]
+            tags = uniontags(tpe, awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length])
             if getattr(tpe, "num_buffers", 3) == 3:
                 assert buffers.pop(0) is None
             index = awkwardlib.numpy.arange(len(tags), dtype=ARROW_INDEXTYPE)
@@ -322,7 +331,7 @@ def fromarrow(obj):
         elif isinstance(tpe, pyarrow.lib.UnionType) and tpe.mode == "dense":
             assert getattr(tpe, "num_buffers", 3) == 3
             mask = buffers.pop(0)
-            tags = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length]
+            tags = uniontags(tpe, awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length])
             index = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length]
             contents = []
             for i in range(_numfields(tpe)):
-- 
2.43.0


From 1a6c94daa8717907b7746750205f8d6c0b5efbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 151/181] fix: converting a selection from a Table to Arrow
 gave the whole Table

---
 awkward0/arrow.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 19db082..1015659 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -112,6 +112,10 @@ def schema2type(schema):
 def toarrow(obj):
     import pyarrow
 
+    def columns(table):
+        length = len(table)
+        return [table[n][:length] for n in table.contents]
+
     def recurse(obj, mask):
         if isinstance(obj, numpy.ndarray):
             return pyarrow.array(obj, mask=mask)
@@ -183,7 +187,7 @@ def toarrow(obj):
             return recurse(obj.content, mask)
 
         elif isinstance(obj, awkward0.array.table.Table):
-            return pyarrow.StructArray.from_arrays([recurse(x, mask) for x in obj.contents.values()], list(obj.contents))
+            return pyarrow.StructArray.from_arrays([recurse(x, mask) for x in columns(obj)], list(obj.contents))
 
         elif isinstance(obj, awkward0.array.union.UnionArray):
             contents = []
@@ -227,7 +231,7 @@ def toarrow(obj):
         return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in obj.content.contents.values()], list(obj.content.contents))])
 
     elif isinstance(obj, awkward0.array.table.Table):
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, None) for x in obj.contents.values()], list(obj.contents))])
+        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, None) for x in columns(obj)], list(obj.contents))])
 
     else:
         return recurse(obj, None)
-- 
2.43.0


From 3da5a9db7d15fef166c81512eaa3a0948347d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 152/181] fix: converting a masked Table to Arrow ignored the
 order of an IndexedMaskedArray and selections from the Table

---
 awkward0/arrow.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 1015659..dc38903 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -220,15 +220,12 @@ def toarrow(obj):
 
     elif isinstance(obj, awkward0.array.masked.IndexedMaskedArray) and isinstance(obj.content, awkward0.array.table.Table):
         mask = obj.boolmask(maskedwhen=True)
-        if len(obj.content) == 0:
-            content = obj.numpy.empty(len(obj.mask), dtype=obj.DEFAULTTYPE)
-        else:
-            content = obj.content[obj.mask]
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in obj.content.contents.values()], list(obj.content.contents))])
+        content = obj.content[obj.numpy.where(mask, 0, obj.mask)]
+        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in columns(content)], list(obj.content.contents))])
 
     elif isinstance(obj, awkward0.array.masked.MaskedArray) and isinstance(obj.content, awkward0.array.table.Table):   # includes BitMaskedArray
         mask = obj.boolmask(maskedwhen=True)
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in obj.content.contents.values()], list(obj.content.contents))])
+        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in columns(obj.content[:len(mask)])], list(obj.content.contents))])
 
     elif isinstance(obj, awkward0.array.table.Table):
         return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, None) for x in columns(obj)], list(obj.contents))])
-- 
2.43.0


From 3ad2329abafba42b381779131b83004e6b4b6d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 153/181] fix: masked arrays with a content longer than the
 mask could not be converted to Arrow

---
 awkward0/arrow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index dc38903..b1757d0 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -156,7 +156,7 @@ def toarrow(obj):
             thismask = obj.boolmask(maskedwhen=True)
             if mask is not None:
                 thismask = mask | thismask
-            return recurse(obj.content, thismask)
+            return recurse(obj.content[:len(thismask)], thismask)
 
         elif isinstance(obj, awkward0.array.objects.StringArray):
             if obj.encoding is None and hasattr(pyarrow.BinaryArray, 'from_buffers'):
-- 
2.43.0


From cb3e7e7ce0e6e587581c0b42d52f3108093f10bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 154/181] fix: missing strings were not missing after
 conversion to Arrow

---
 awkward0/arrow.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index b1757d0..1a39994 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -166,12 +166,12 @@ def toarrow(obj):
                 # if hasattr(pyarrow, 'LargeBinaryArray') and obj.starts.itemsize > 4:
                 #     arrow_type = pyarrow.LargeBinaryArray
                 #     arrow_offset_type = pyarrow.large_binary()
-                convert = lambda length, offsets, content: arrow_type.from_buffers(arrow_offset_type, length, [None, offsets, content])
+                convert = lambda length, offsets, content, valid: arrow_type.from_buffers(arrow_offset_type, length, [valid, offsets, content])
             elif codecs.lookup(obj.encoding) is codecs.lookup("utf-8") or obj.encoding is None:
                 arrow_type = pyarrow.StringArray
                 # if hasattr(pyarrow, 'LargeStringArray') and obj.starts.itemsize > 4:
                 #     arrow_type = pyarrow.LargeStringArray
-                convert = lambda length, offsets, content: arrow_type.from_buffers(length, offsets, content)
+                convert = lambda length, offsets, content, valid: arrow_type.from_buffers(length, offsets, content, valid)
             else:
                 raise ValueError("only encoding=None or encoding='utf-8' can be converted to Arrow")
 
@@ -180,7 +180,12 @@ def toarrow(obj):
             if offsets.dtype != numpy.dtype(numpy.int32):
                 offsets = offsets.astype(numpy.int32)
 
-            return convert(len(offsets) - 1, pyarrow.py_buffer(offsets), pyarrow.py_buffer(obj.content))
+            if mask is None:
+                valid = None
+            else:
+                valid = pyarrow.py_buffer(awkward0.array.masked.BitMaskedArray.bool2bit(numpy.logical_not(mask), lsborder=True))
+
+            return convert(len(offsets) - 1, pyarrow.py_buffer(offsets), pyarrow.py_buffer(obj.content), valid)
 
         elif isinstance(obj, awkward0.array.objects.ObjectArray):
             # throw away Python object interpretation, which Arrow can't handle while being multilingual
-- 
2.43.0


From 2f22f6f8a0b63f5a46603915e7309f3a03c67aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 155/181] fix: IndexedMaskedArrays with another maskedwhen than
 -1 could not be converted to Arrow

---
 awkward0/arrow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 1a39994..84aa8d2 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -149,7 +149,7 @@ def toarrow(obj):
             if len(obj.content) == 0:
                 content = obj.numpy.empty(len(obj.mask), dtype=obj.DEFAULTTYPE)
             else:
-                content = obj.content[obj.mask]
+                content = obj.content[obj.numpy.where(obj.boolmask(maskedwhen=True), 0, obj.mask)]
             return recurse(content, thismask)
 
         elif isinstance(obj, awkward0.array.masked.MaskedArray):   # includes BitMaskedArray
-- 
2.43.0


From 6ea1456d495cb36231b9cb9eedf82bc158af053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 156/181] fix: masked unions with repeated or unused values, or
 an index longer than the tags, could not be converted to Arrow

---
 awkward0/arrow.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 84aa8d2..fef255a 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -196,16 +196,17 @@ def toarrow(obj):
 
         elif isinstance(obj, awkward0.array.union.UnionArray):
             contents = []
+            index = obj.index[:len(obj.tags)].astype(numpy.int32)
             for i, x in enumerate(obj.contents):
                 if mask is None:
-                    thismask = None
+                    contents.append(recurse(x, None))
                 else:
                     thistags = (obj.tags == i)
-                    thismask = obj.numpy.empty(len(x), dtype=obj.MASKTYPE)
-                    thismask[obj.index[thistags]] = mask[thistags]    # hmm... obj.index could have repeats; the Arrow mask in that case would not be well-defined...
-                contents.append(recurse(x, thismask))
+                    x = x[index[thistags]]                            # the same value may be missing in one place and not in another
+                    index[thistags] = numpy.arange(len(x))
+                    contents.append(recurse(x, mask[thistags]))
 
-            return pyarrow.UnionArray.from_dense(pyarrow.array(obj.tags.astype(numpy.int8)), pyarrow.array(obj.index.astype(numpy.int32)), contents)
+            return pyarrow.UnionArray.from_dense(pyarrow.array(obj.tags.astype(numpy.int8)), pyarrow.array(index), contents)
 
         elif isinstance(obj, awkward0.array.virtual.VirtualArray):
             return recurse(obj.array, mask)
-- 
2.43.0


From 2536e2f7daec240ea94ee6ecb6e930f446e4f8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 157/181] fix: masked JaggedArrays with unreachable content
 could not be converted to Arrow

---
 awkward0/arrow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index fef255a..3cb90cc 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -140,7 +140,7 @@ def toarrow(obj):
             # 64bit offsets not yet completely golden in arrow
             # if hasattr(pyarrow, 'LargeListArray') and obj.starts.itemsize > 4:
             #     arrow_type = pyarrow.LargeListArray
-            return arrow_type.from_arrays(obj.offsets, recurse(obj.content, mask))
+            return arrow_type.from_arrays(obj.offsets, recurse(obj.flatten(), mask))
 
         elif isinstance(obj, awkward0.array.masked.IndexedMaskedArray):
             thismask = obj.boolmask(maskedwhen=True)
-- 
2.43.0


From 1c5f0590ab2d5751eda41e583737f081fde9a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 158/181] fix: Arrow dictionaries with missing values were
 refused because of what stands under the missing values

---
 awkward0/arrow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 3cb90cc..7e74bce 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -267,7 +267,7 @@ def fromarrow(obj):
             else:
                 raise NotImplementedError("no way to access Arrow dictionary inside of UnionArray")
             if isinstance(index, awkwardlib.BitMaskedArray):
-                return awkwardlib.BitMaskedArray(index.mask, awkwardlib.IndexedArray(index.content, content), maskedwhen=index.maskedwhen, lsborder=index.lsborder)
+                return awkwardlib.IndexedMaskedArray(awkwardlib.numpy.where(index.boolmask(maskedwhen=True), -1, index.content), content)    # index is undefined where masked
             else:
                 return awkwardlib.IndexedArray(index, content)
 
-- 
2.43.0


From 09facfa0e16ab877d42b69d83ed93a1e5bbc19aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 159/181] fix: converting a partially filled AppendableArray to
 Arrow or Parquet included what was not filled yet

---
 awkward0/arrow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 7e74bce..96f9da6 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -216,7 +216,7 @@ def toarrow(obj):
 
     if isinstance(obj, awkward0.array.chunked.ChunkedArray):   # includes AppendableArray
         batches = []
-        for chunk in obj.chunks:
+        for chunk in obj._filled():
             arr = toarrow(chunk)
             if isinstance(arr, pyarrow.Table):
                 batches.extend(arr.to_batches())
@@ -507,7 +507,7 @@ def toparquet(where, obj, **options):
             raise TypeError(message)
 
     if isinstance(obj, awkward0.array.chunked.ChunkedArray):
-        obj = iter(obj.chunks)
+        obj = iter(obj._filled())
         try:
             awkitem = next(obj)
         except StopIteration:
-- 
2.43.0


From bca8a17071852420224a9ae6dfde941521179999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 160/181] fix: empty lists that start beyond the beginning of
 the content could not be converted to Arrow

---
 awkward0/arrow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 96f9da6..2d9165b 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -140,7 +140,7 @@ def toarrow(obj):
             # 64bit offsets not yet completely golden in arrow
             # if hasattr(pyarrow, 'LargeListArray') and obj.starts.itemsize > 4:
             #     arrow_type = pyarrow.LargeListArray
-            return arrow_type.from_arrays(obj.offsets, recurse(obj.flatten(), mask))
+            return arrow_type.from_arrays(obj.counts2offsets(obj.counts), recurse(obj.flatten(), mask))
 
         elif isinstance(obj, awkward0.array.masked.IndexedMaskedArray):
             thismask = obj.boolmask(maskedwhen=True)
-- 
2.43.0


From e463a1737f1ecb8d7bd9d31690d33f9667b45fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 161/181] fix: ChunkedArrays of Tables without rows could not
 be converted to Arrow

---
 awkward0/arrow.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 2d9165b..532d887 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -215,13 +215,16 @@ def toarrow(obj):
             raise TypeError("cannot convert type {0} to Arrow".format(type(obj)))
 
     if isinstance(obj, awkward0.array.chunked.ChunkedArray):   # includes AppendableArray
-        batches = []
+        batches, tables = [], []
         for chunk in obj._filled():
             arr = toarrow(chunk)
             if isinstance(arr, pyarrow.Table):
+                tables.append(arr)
                 batches.extend(arr.to_batches())
             else:
                 batches.append(pyarrow.RecordBatch.from_arrays([arr], [""]))
+        if len(batches) == 0 and len(tables) != 0:
+            return tables[0]               # tables without rows have no batches
         return pyarrow.Table.from_batches(batches)
 
     elif isinstance(obj, awkward0.array.masked.IndexedMaskedArray) and isinstance(obj.content, awkward0.array.table.Table):
-- 
2.43.0


From f28f227cf78c57ba6aab2b5aed054d25d6797125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 162/181] fix: IndexedMaskedArray does not take a non-negative
 maskedwhen for a position in the content

---
 awkward0/array/masked.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 2e59294..316bcdc 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -739,9 +739,10 @@ class IndexedMaskedArray(MaskedArray):
         if self.check_whole_valid:
             if not self._isvalid:
                 if len(self._mask) != 0:
-                    if self._mask.max() >= len(self._content):
-                        raise ValueError("maximum mask-index ({0}) is beyond the length of the content ({1})".format(self._mask.max(), len(self._content)))
-                    if (self._mask[self._mask != self._maskedwhen] < 0).any():
+                    unmasked = self._mask[self._mask != self._maskedwhen]
+                    if (unmasked >= len(self._content)).any():
+                        raise ValueError("maximum mask-index ({0}) is beyond the length of the content ({1})".format(unmasked.max(), len(self._content)))
+                    if (unmasked < 0).any():
                         raise ValueError("mask-index has negative values (other than maskedwhen)")
 
                 self._isvalid = True
-- 
2.43.0


From 82cc3c799949f48d7c8606c3aff52b533841d2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 163/181] fix: flatten, reductions and fillna of
 IndexedMaskedArray honor a non-negative maskedwhen

---
 awkward0/array/masked.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 316bcdc..867232b 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -813,7 +813,7 @@ class IndexedMaskedArray(MaskedArray):
 
     def flatten(self, axis=0):
         mask = self.boolmask(maskedwhen=False)
-        goodcontent = self._content[self._mask[self._mask >= 0]]
+        goodcontent = self._content[self._mask[mask]]
         content = self._util_flatten(goodcontent, axis)
         counts = self._util_counts(goodcontent)
         counts[counts < 0] = 1
@@ -847,7 +847,7 @@ class IndexedMaskedArray(MaskedArray):
             identity = self._util_identity(identity, content.dtype)
 
         out = self.numpy.full(self._mask.shape + content.shape[1:], identity, dtype=content.dtype)
-        out[self.isunmasked] = content[self.mask[self.mask >= 0]]
+        out[self.isunmasked] = content[self._mask[self.isunmasked]]
         return out
 
     def argmin(self):
@@ -869,12 +869,7 @@ class IndexedMaskedArray(MaskedArray):
         if not isinstance(out, self.numpy.ndarray):
             out = self.numpy.array(out)
         out = self.numpy.append(out, value)
-        if (self.mask < -1).any():
-            mask = self.mask.copy()
-            mask[mask < -1] = -1
-        else:
-            mask = self.mask
-        return out[mask]
+        return out[self.numpy.where(self.boolmask(maskedwhen=True), -1, self._mask)]
 
     @classmethod
     def _concatenate_axis0(cls, arrays):
-- 
2.43.0


From 04b647e23b92f3913c9c8599d9382ad848ae9005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 164/181] fix: rows with arrays as fields could not be compared
 (empty arrays were never equal)

---
 awkward0/array/table.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index d5e389d..30de594 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -147,7 +147,14 @@ class Table(awkward0.array.base.AwkwardArray):
             elif self._table is other._table and self._index == other._index:
                 return True
             else:
-                return set(self._table._contents) == set(other._table._contents) and all(self._table._contents[n][self._index] == other._table._contents[n][other._index] for n in self._table._contents)
+                return set(self._table._contents) == set(other._table._contents) and all(self._samefield(self._table._contents[n][self._index], other._table._contents[n][other._index]) for n in self._table._contents)
+
+        @staticmethod
+        def _samefield(one, two):
+            if isinstance(one, (numpy.ndarray, awkward0.array.base.AwkwardArray)) and isinstance(two, (numpy.ndarray, awkward0.array.base.AwkwardArray)):
+                return one.tolist() == two.tolist()
+            else:
+                return bool(one == two)
 
         def __ne__(self, other):
             return not self.__eq__(other)
-- 
2.43.0


From f57750f79f52330b35a7fdfd23f6403fec9b70a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:51 +0000
Subject: [PATCH 165/181] fix: assigning a column to overlapping lists is
 refused, not misplaced

---
 awkward0/array/jagged.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 3365892..300bbeb 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -810,14 +810,14 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def __setitem__(self, where, what):
         if isinstance(where, awkward0.util.string):
-            self._content[where] = self.tojagged(what)._content
+            self._content[where] = self._contentcolumn(what)
 
         elif self._util_isstringslice(where):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
             for x, y in zip(where, what):
-                self._content[x] = self.tojagged(y)._content
+                self._content[x] = self._contentcolumn(y)
 
         elif isinstance(where, JaggedArray):
             if isinstance(what, JaggedArray):
@@ -859,6 +859,15 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         else:
             raise TypeError("invalid index for assigning to JaggedArray: {0}".format(where))
 
+    def _contentcolumn(self, what):
+        if len(self._starts) != 0 and self._overlapping():
+            try:
+                len(what)
+            except TypeError:
+                return what     # the same value for every record
+            raise ValueError("cannot assign a column to a JaggedArray in which lists overlap (some records belong to more than one list)")
+        return self.tojagged(what)._content
+
     def _overlapping(self):
         return (self.parents >= 0).sum() != self.counts.sum()
 
-- 
2.43.0


From 249123ae706abc9a1245ccc6edad20af8a1e07f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:51 +0000
Subject: [PATCH 166/181] fix: assigning to elements selected by a jagged mask
 requires lists of the same lengths

---
 awkward0/array/jagged.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 300bbeb..f8c2081 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -849,6 +849,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 self._content[indexes] = what
 
             elif issubclass(where._content.dtype.type, (self.numpy.bool, self.numpy.bool_)):
+                if not self.numpy.array_equal(where.counts, self.counts):
+                    raise ValueError("jagged array used as mask has different counts from the jagged array it is assigning to")
                 index = self.localindex + self.starts
                 flatindex = index.flatten()[where.flatten()]
                 self._content[flatindex] = what
-- 
2.43.0


From 283c15a44c1534657bbd19cc21b484849262dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:51 +0000
Subject: [PATCH 167/181] fix: columns assigned to an IndexedMaskedArray follow
 its index

---
 awkward0/array/masked.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 867232b..e4e338e 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -720,6 +720,26 @@ class IndexedMaskedArray(MaskedArray):
                 raise TypeError("maskedwhen must be an integer for IndexedMaskedArray")
         self._maskedwhen = value
 
+    def _invert(self, what):
+        if len(what) != len(self._mask):
+            raise ValueError("cannot assign array of length {0} to masked array of length {1}".format(len(what), len(self._mask)))
+        good = (self._mask != self._maskedwhen)
+        return self.IndexedArray(self.IndexedArray.invert(self._mask[good]), what[good])
+
+    def __setitem__(self, where, what):
+        if isinstance(where, awkward0.util.string):
+            self._content[where] = self._invert(what)
+
+        elif self._util_isstringslice(where):
+            what = what.unzip()
+            if len(where) != len(what):
+                raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
+            for x, y in zip(where, what):
+                self._content[x] = self._invert(y)
+
+        else:
+            raise TypeError("invalid index for assigning column to Table: {0}".format(where))
+
     def boolmask(self, maskedwhen=True):
         if maskedwhen is None:
             raise TypeError("maskedwhen must be True or False")
-- 
2.43.0


From 1d5cdb0ef5a3c9742ad3d1e7db9f97aa6702cead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 168/181] fix: a column that cannot be assigned to all contents
 of a UnionArray is assigned to none of them

---
 awkward0/array/union.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 8df47bb..4cbb33e 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -332,23 +332,26 @@ class UnionArray(awkward0.array.base.AwkwardArray):
                     contents.append(self._contents[tag][(index[mask],) + tail])
                 return self.UnionArray.fromtags(outtags, contents)
 
+    def _invertindex(self):
+        out = []
+        for tag in self.numpy.unique(self._tags):
+            mask = (self._tags == tag)
+            out.append((tag, mask, self.IndexedArray.invert(self._index[:len(self._tags)][mask])))
+        return out      # for all tags before any content is changed
+
     def __setitem__(self, where, what):
         if what.shape[:len(self._tags.shape)] != self._tags.shape:
             raise ValueError("array to assign does not have the same starting shape as tags")
 
         if isinstance(where, awkward0.util.string):
-            for tag in self.numpy.unique(self._tags):
-                mask = (self._tags == tag)
-                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][mask])
+            for tag, mask, inverseindex in self._invertindex():
                 self._contents[tag][where] = self.IndexedArray(inverseindex, what[mask])
 
         elif self._util_isstringslice(where):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
-            for tag in self.numpy.unique(self._tags):
-                mask = (self._tags == tag)
-                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][mask])
+            for tag, mask, inverseindex in self._invertindex():
                 for x, y in zip(where, what):
                     self._contents[tag][x] = self.IndexedArray(inverseindex, y[mask])
 
-- 
2.43.0


From bf8d9318807ab33000fb07c26d3cbf73a43e7bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 169/181] fix: setting the parents of a JaggedArray has its
 structure checked again

---
 awkward0/array/jagged.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index f8c2081..26f6632 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -443,6 +443,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         self._starts, self._stops = self.parents2startsstops(value)
         self._offsets, self._counts = None, None
         self._parents = value
+        self._isvalid = False
 
     @property
     def localindex(self):
-- 
2.43.0


From 5dd93466cc0a358afe7627aa0d1491bf0da3f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 170/181] fix: setting maskedwhen of an IndexedMaskedArray has
 its mask checked again

---
 awkward0/array/masked.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index e4e338e..26735d8 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -719,6 +719,7 @@ class IndexedMaskedArray(MaskedArray):
             if not self._util_isinteger(value):
                 raise TypeError("maskedwhen must be an integer for IndexedMaskedArray")
         self._maskedwhen = value
+        self._isvalid = False
 
     def _invert(self, what):
         if len(what) != len(self._mask):
-- 
2.43.0


From ffddc4f738117418bba98870aee61f7a6c1ba216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:15 +0000
Subject: [PATCH 171/181] fix: valid() of a StringArray did not look at its
 starts and stops

---
 awkward0/array/objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 306604b..ef0d29e 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -667,6 +667,9 @@ class StringArray(StringMethods, ObjectArray):
             out = self._content[where]
             return self.__class__(out.starts, out.stops, out.content, self.encoding)
 
+    def _valid(self):
+        self._content._valid()
+
     def regular(self):
         self._valid()
         return self.numpy.array(self)
-- 
2.43.0


From 5bf3c214245d87a0bd05cac45bc16911ff3f6624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 172/181] fix: dictionary-encoded columns of Parquet files
 could not be read

---
 awkward0/arrow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 532d887..647a7d8 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -28,7 +28,7 @@ def schema2type(schema):
 
     def recurse(tpe, nullable):
         if isinstance(tpe, pyarrow.lib.DictionaryType):
-            out = recurse(tpe.dictionary.type, nullable)
+            out = recurse(tpe.value_type, nullable)
             if nullable:
                 return awkward0.type.OptionType(out)
             else:
-- 
2.43.0


From 7afcbcf13c65309c00891405b779fe0d06a279df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 173/181] fix: columns of large strings and large lists in
 Parquet files could not be read

---
 awkward0/arrow.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 647a7d8..c296492 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -47,7 +47,7 @@ def schema2type(schema):
             else:
                 return out
 
-        elif isinstance(tpe, pyarrow.lib.ListType):
+        elif isinstance(tpe, pyarrow.lib.ListType) or (hasattr(pyarrow.lib, "LargeListType") and isinstance(tpe, pyarrow.lib.LargeListType)):
             out = awkward0.type.ArrayType(float("inf"), recurse(tpe.value_type, nullable))
             if nullable:
                 return awkward0.type.OptionType(out)
@@ -67,13 +67,13 @@ def schema2type(schema):
             else:
                 return out
 
-        elif tpe == pyarrow.string():
+        elif tpe == pyarrow.string() or tpe == pyarrow.large_string():
             if nullable:
                 return awkward0.type.OptionType(str)
             else:
                 return str
 
-        elif tpe == pyarrow.binary():
+        elif tpe == pyarrow.binary() or tpe == pyarrow.large_binary():
             if nullable:
                 return awkward0.type.OptionType(bytes)
             else:
-- 
2.43.0


From 9e214b8080755fd6f153decbf919fa2e974eaefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 174/181] fix: columns of dates in Parquet files were declared
 with another type than they are read with

---
 awkward0/arrow.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index c296492..52761a0 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -86,6 +86,13 @@ def schema2type(schema):
             else:
                 return out
 
+        elif tpe == pyarrow.date32():
+            out = awkward0.numpy.dtype("datetime64[D]")
+            if nullable:
+                return awkward0.type.OptionType(out)
+            else:
+                return out
+
         elif isinstance(tpe, pyarrow.lib.DataType):
             if nullable:
                 return awkward0.type.OptionType(tpe.to_pandas_dtype())
-- 
2.43.0


From f8918cb4aaee64b8d9a1efd65654cd1e72f3c589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:53 +0000
Subject: [PATCH 175/181] fix: types of strings and of bytes were equal to each
 other and to those of any objects

---
 awkward0/type.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index 14d8021..f1815b8 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -225,7 +225,8 @@ class Type(object):
         elif one == two:
             return True
         elif callable(one) and callable(two):
-            return True
+            # functions that make objects can't be compared, but strings and bytes can
+            return not any(x is y for x in (one, two) for y in (str, bytes))
         else:
             return False
 
-- 
2.43.0


From 1c4e507d3effcbf60b55d20e876b75957dfe3ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 176/181] fix: types of strings and bytes were stored as
 functions that the whitelist does not name, so virtual arrays of them could
 not be restored

---
 awkward0/persist.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index e75fc56..b5e97be 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -156,6 +156,9 @@ def type2json(obj):
         elif isinstance(obj, numpy.dtype):
             return {"dtype": dtype2json(obj)}
 
+        elif obj is str or obj is bytes:
+            return {"builtin": obj.__name__}
+
         elif callable(obj):
             if obj.__module__ == "__main__":
                 raise TypeError("cannot persist object type: its generator is defined in __main__, which won't be available in a subsequent session")
@@ -216,6 +219,9 @@ def json2type(obj, whitelist=whitelist):
         elif "dtype" in obj:
             return json2dtype(obj["dtype"])
 
+        elif "builtin" in obj:
+            return {"str": str, "bytes": bytes}[obj["builtin"]]
+
         elif "function" in obj:
             return spec2function(obj["function"], whitelist=whitelist)
 
-- 
2.43.0


From 84f61a9f77590dee7ab7e1fd0b0ea5f8771081d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:12 +0000
Subject: [PATCH 177/181] fix: deleting several columns, one of which does not
 exist, deleted those before it

---
 awkward0/array/base.py  | 5 +----
 awkward0/array/table.py | 3 +++
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 8ec9eb6..13fc5de 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -745,11 +745,8 @@ class AwkwardArrayWithContent(AwkwardArray):
             raise TypeError("invalid index for assigning column to Table: {0}".format(where))
 
     def __delitem__(self, where):
-        if isinstance(where, awkward0.util.string):
+        if isinstance(where, awkward0.util.string) or self._util_isstringslice(where):
             del self._content[where]
-        elif self._util_isstringslice(where):
-            for x in where:
-                del self._content[x]
         else:
             raise TypeError("invalid index for removing column from Table: {0}".format(where))
 
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 30de594..d850a4f 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -670,6 +670,9 @@ class Table(awkward0.array.base.AwkwardArray):
             del self._contents[where]
         elif self._util_isstringslice(where):
             for x in where:
+                if x not in self._contents:
+                    raise KeyError(x)
+            for x in set(where):
                 del self._contents[x]
         else:
             raise TypeError("invalid index for removing column from Table: {0}".format(where))
-- 
2.43.0


From 049943a2dfa1a5e455a1071b49216ff860548395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:40 +0000
Subject: [PATCH 178/181] fix: flattening to a DataFrame lost missing values
 and misplaced lists

Missing numbers beside or inside of lists (and of an IndexedMaskedArray) had
values, the positions of lists of lists were wrong for other than contiguous
layouts, a list beside a record with a list got two levels of positions, two
columns of lists of lists were put beside each other whatever their lengths,
and chunked or indexed arrays were refused.
---
 awkward0/util.py | 163 +++++++++++++++++++----------------------------
 1 file changed, 66 insertions(+), 97 deletions(-)

diff --git a/awkward0/util.py b/awkward0/util.py
index 3e6128c..32ff526 100644
--- a/awkward0/util.py
+++ b/awkward0/util.py
@@ -239,7 +239,9 @@ def topandas_flatten(array):
 
     import awkward0.array.base
     import awkward0.array.chunked
+    import awkward0.array.indexed
     import awkward0.array.jagged
+    import awkward0.array.masked
     import awkward0.array.objects
     import awkward0.array.table
     import awkward0.array.virtual
@@ -247,126 +249,93 @@ def topandas_flatten(array):
 
     if isinstance(array, awkward0.array.base.AwkwardArray):
         numpy = array.numpy
-        JaggedArray = array.JaggedArray
         Table = array.Table
     else:
-        JaggedArray = awkward0.array.jagged.JaggedArray
         Table = awkward0.array.table.Table
 
     def unwrap(a):
         if isinstance(a, awkward0.array.chunked.ChunkedArray):
-            chunks = [unwrap(x) for x in a.chunks]
-            if any(isinstance(x, awkward0.array.jagged.JaggedArray) for x in chunks):
-                return awkward0.array.jagged.JaggedArray.concatenate(chunks)
-            else:
-                return numpy.concatenate([x.regular() for x in chunks])
+            a.knowchunksizes()
+            offsets = a.offsets
+            chunks = [unwrap(x[:stop - start]) for x, start, stop in zip(a.chunks, offsets[:-1], offsets[1:])]
+            return awkward0.array.base.AwkwardArray.concatenate(chunks) if len(chunks) != 0 else numpy.array([])
         elif isinstance(a, awkward0.array.virtual.VirtualArray):
-            return a.array
+            return unwrap(a.array)
+        elif isinstance(a, awkward0.array.indexed.SparseArray):
+            return unwrap(a.dense)
+        elif isinstance(a, awkward0.array.indexed.IndexedArray):
+            return unwrap(unwrap(a.content)[a.index])
+        elif isinstance(a, awkward0.array.objects.ObjectArray) and not isinstance(a, awkward0.array.objects.StringArray):
+            return unwrap(a.content)
         else:
             return a
 
-    globalindex = [None]
-    localindex = []
-    columns = []
-    def recurse(array, tpe, cols, seriously):
-        if isinstance(tpe, awkward0.type.TableType):
-            starts, stops = None, None
-            out, deferred, unflattened = None, {}, None
-
-            for n in tpe.columns:
+    def recurse(array):
+        # returns: the item of this array each row belongs to and its position in each list (None and [] if every item is a row),
+        # and the columns with their values in each row
+        array = unwrap(array)
+
+        if isinstance(array, awkward0.array.objects.StringArray):
+            return None, [], [((), array)]
+
+        elif isinstance(array, awkward0.array.jagged.JaggedArray) and len(array.shape) == 1 and len(array.starts.shape) == 1:
+            parents = array.tojagged(numpy.arange(len(array))).flatten()
+            localindex = array.localindex.flatten()
+            innerparents, innerlocal, columns = recurse(array.flatten())
+            if innerparents is not None:
+                parents, localindex = parents[innerparents], localindex[innerparents]
+            return parents, [localindex] + innerlocal, columns
+
+        elif isinstance(array, awkward0.array.table.Table):
+            parents, localindex, parts = None, [], []
+            for n in array.columns:
                 if not isinstance(n, str):
                     raise ValueError("column names must be strings")
 
-                arrayn = unwrap(array[n])
-                tpen = tpe[n]
-                colsn = cols + (n,) if seriously else cols
-
-                if isinstance(arrayn, awkward0.array.objects.ObjectArray) and not isinstance(arrayn, awkward0.array.objects.StringArray):
-                    arrayn = arrayn.content
-                if not isinstance(tpen, (numpy.dtype, str, bytes, awkward0.type.Type)):
-                    tpen = awkward0.type.fromarray(arrayn).to
-                if isinstance(tpen, numpy.dtype):
-                    columns.append(colsn)
-                    tmp = arrayn
-
-                elif isinstance(tpen, type) and issubclass(tpen, (str, bytes)):
-                    columns.append(colsn)
-                    tmp = arrayn
-
-                elif isinstance(tpen, awkward0.type.ArrayType) and tpen.takes == numpy.inf:
-                    tmp = JaggedArray(arrayn.starts, arrayn.stops, recurse(arrayn.content, tpen.to, colsn, True))
-
-                elif isinstance(tpen, awkward0.type.TableType):
-                    tmp = recurse(arrayn, tpen, colsn, True)
+                myparents, mylocal, columns = recurse(array[n][:len(array)])
+                parts.append((n, myparents, columns))
 
-                elif isinstance(tpen, awkward0.type.OptionType) and isinstance(arrayn.content, numpy.ndarray):
-                    columns.append(colsn)
-                    tmp = numpy.ma.MaskedArray(arrayn.content, arrayn.boolmask(maskedwhen=True))
-
-                else:
-                    raise ValueError("this array has unflattenable substructure:\n\n{0}".format(str(tpen)))
-
-                if isinstance(tmp, awkward0.array.jagged.JaggedArray):
-                    if isinstance(tmp.content, awkward0.array.jagged.JaggedArray):
-                        unflattened = tmp
-                        tmp = tmp.flatten(axis=1)
-
-                    if starts is None:
-                        starts, stops = tmp.starts, tmp.stops
-                    elif not numpy.array_equal(starts, tmp.starts) or not numpy.array_equal(stops, tmp.stops):
+                if myparents is not None:
+                    if parents is None:
+                        parents, localindex = myparents, mylocal
+                    elif len(localindex) != len(mylocal) or not all(numpy.array_equal(x, y) for x, y in zip([parents] + localindex, [myparents] + mylocal)):
                         raise ValueError("this array has more than one jagged array structure")
-                    if out is None:
-                        out = JaggedArray(starts, stops, Table({n: tmp.content}))
-                    else:
-                        out[n] = tmp
-
-                else:
-                    deferred[n] = tmp
-
-            if out is None:
-                out = Table()
-
-            for n, x in deferred.items():
-                out[n] = x
-
-            m = ""
-            while m in tpe.columns:
-                m = m + " "
-            out[m] = numpy.arange(len(out))
-            globalindex[0] = out[m].flatten()
-
-            for n in tpe.columns:
-                arrayn = unwrap(array[n])
-                if isinstance(arrayn, awkward0.array.jagged.JaggedArray):
-                    if unflattened is None:
-                        localindex.insert(0, out[n].localindex.flatten())
-                    else:
-                        oldloc = unflattened.content.localindex
-                        tab = JaggedArray(oldloc.starts, oldloc.stops, Table({"oldloc": oldloc.content}))
-                        tab["newloc"] = arrayn.localindex.flatten()
-                        localindex.insert(0, tab["newloc"].flatten())
-                    break
-
-            return out[tpe.columns]
 
-        else:
-            return recurse(Table({"": array}), awkward0.type.TableType(**{"": tpe}), cols, False)[""]
+            out = []
+            for n, myparents, columns in parts:
+                for col, values in columns:
+                    out.append(((n,) + col, values if parents is None or myparents is not None else values[parents]))
+            return parents, localindex, out
+
+        elif isinstance(array, awkward0.array.masked.MaskedArray):
+            content = unwrap(array.content)
+            if isinstance(array, awkward0.array.masked.IndexedMaskedArray):
+                mask = array.boolmask(maskedwhen=True)
+                content = content[numpy.where(mask, 0, array.mask)] if len(content) != 0 else numpy.zeros(len(mask), dtype=content.dtype)
+            if isinstance(content, numpy.ndarray) and len(content.shape) == 1 and content.dtype.fields is None:
+                return None, [], [((), numpy.ma.MaskedArray(content[:len(array)], array.boolmask(maskedwhen=True)))]
+
+        elif isinstance(array, numpy.ndarray) and len(array.shape) == 1:
+            if array.dtype.fields is None:
+                return None, [], [((), array)]
+            else:
+                return recurse(Table.fromrec(array))
+
+        raise ValueError("this array has unflattenable substructure:\n\n{0}".format(str(awkward0.type.fromarray(array).to)))
 
-    tmp = recurse(array, awkward0.type.fromarray(array).to, (), True)
-    if isinstance(tmp, awkward0.array.jagged.JaggedArray):
-        tmp = tmp.flatten()
+    parents, localindex, contents = recurse(array)
+    if parents is None:
+        parents = numpy.arange(len(array))
 
+    columns = [col for col, values in contents]
     deepest = max(len(x) for x in columns)
 
     out = {}
-    for i, col in enumerate(columns):
-        x = tmp
-        for c in col:
-            x = x[c]
+    for i, (col, values) in enumerate(contents):
         columns[i] = col + ("",) * (deepest - len(col))
-        out[columns[i]] = x
+        out[columns[i]] = values
 
-    index = globalindex + localindex
+    index = [parents] + localindex
     if len(index) == 1:
         index = pandas.Index(index[0])
     else:
-- 
2.43.0


From e5cd4952a8b3b2b4677d161bed5f0c3e6811f0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 179/181] fix: cross of an IndexedMaskedArray combined its
 content, not the lists that its mask selects, with the other array's lists

---
 awkward0/array/masked.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 26735d8..193aa90 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -846,6 +846,22 @@ class IndexedMaskedArray(MaskedArray):
         index[~augmask] = -1
         return self.IndexedMaskedArray(index, content)
 
+    def _cross(self, method, other, nested):
+        self._valid()
+        if len(other) != len(self):
+            raise ValueError("cannot cross arrays with different lengths: {0} and {1}".format(len(self), len(other)))
+        mask = self.boolmask(maskedwhen=False)
+        content = getattr(self._content[self._mask[mask]], method)(other[mask], nested=nested)
+        index = self.numpy.cumsum(mask) - 1
+        index[~mask] = -1
+        return self.IndexedMaskedArray(index, content)
+
+    def cross(self, other, nested=False):
+        return self._cross("cross", other, nested)
+
+    def argcross(self, other, nested=False):
+        return self._cross("argcross", other, nested)
+
     def regular(self):
         self._valid()
         content = self._util_regular(self._content).astype(self.numpy.float64)
-- 
2.43.0


From 84bb65ad65c41596e76b075192ea5486db60edff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 180/181] fix: padding lists of fixed length inside lists
 failed or ignored the axis if they have more dimensions or are clipped to
 nothing

---
 awkward0/array/base.py | 50 ++++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 31 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 13fc5de..816c5d3 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -490,43 +490,31 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         if isinstance(array, AwkwardArray):
             return array.pad(length, maskedwhen=maskedwhen, clip=clip, axis=axis)
 
-        elif len(array.shape) == 1:
+        elif len(array.shape) <= axis + 1:
             raise ValueError("pad cannot be applied to scalars")
 
-        elif length == 0 and clip:
-            if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
-                return cls.JaggedArray.fget(None).fromoffsets([0], cls.numpy.ma.array([]))
-            else:
-                return cls.JaggedArray.fget(None).fromoffsets([0], cls.MaskedArray.fget(None)([], []))
-
-        elif array.shape[1] > length and clip:
-            offsets = cls.numpy.arange(0, length*(len(array) + 1), length, dtype=cls.INDEXTYPE)
-            content = array[(slice(None), slice(length)) + array.shape[2:]]
-            if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
-                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.numpy.ma.array(content.reshape((-1,) + array.shape[2:])))
-            else:
-                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.MaskedArray.fget(None).fromcontent(content.reshape((-1,) + array.shape[2:]), maskedwhen=maskedwhen))
-
-        elif array.shape[1] >= length:
-            offsets = cls.numpy.arange(0, array.shape[1]*(len(array) + 1), array.shape[1], dtype=cls.INDEXTYPE)
-            if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
-                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.numpy.ma.array(array.reshape((-1,) + array.shape[2:])))
-            else:
-                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.MaskedArray.fget(None).fromcontent(array.reshape((-1,) + array.shape[2:]), maskedwhen=maskedwhen))
+        elif axis > 0:
+            offsets = cls.numpy.arange(len(array) + 1, dtype=cls.INDEXTYPE)*array.shape[1]
+            content = array.reshape((len(array)*array.shape[1],) + array.shape[2:])
+            return cls.JaggedArray.fget(None).fromoffsets(offsets, cls._util_pad(content, length, maskedwhen, clip, axis - 1))
 
         else:
-            offsets = cls.numpy.arange(0, length*(len(array) + 1), length, dtype=cls.INDEXTYPE)
-            content = cls.numpy.empty(array.shape[:1] + (length,) + array.shape[2:], dtype=array.dtype)
-            content[:, :array.shape[1]] = array
+            size = length if clip else max(length, array.shape[1])
+            kept = min(size, array.shape[1])
+            offsets = cls.numpy.arange(len(array) + 1, dtype=cls.INDEXTYPE)*size
+            content = cls.numpy.zeros(array.shape[:1] + (size,) + array.shape[2:], dtype=array.dtype)
+            content[:, :kept] = array[:, :kept]
+            content = content.reshape((len(array)*size,) + array.shape[2:])
+            padded = cls.numpy.ones((len(array), size), dtype=cls.MASKTYPE)
+            padded[:, :kept] = False
+            padded = padded.reshape(-1)
             if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
-                mask = cls.numpy.ones(len(array), dtype=cls.MASKTYPE)
-                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.numpy.ma.array(content.reshape((-1,) + array.shape[2:]), mask=mask))
-            if maskedwhen:
-                mask = cls.numpy.ones((len(array), length), dtype=cls.MASKTYPE)
+                mask = cls.numpy.zeros(content.shape, dtype=cls.MASKTYPE)
+                mask[padded] = True
+                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.numpy.ma.array(content, mask=mask))
             else:
-                mask = cls.numpy.zeros((len(array), length), dtype=cls.MASKTYPE)
-            mask[:, :array.shape[1]] = not maskedwhen
-            return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.MaskedArray.fget(None)(mask.reshape((-1,) + array.shape[2:]), content.reshape((-1,) + array.shape[2:]), maskedwhen=maskedwhen))
+                mask = padded if maskedwhen else ~padded
+                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.MaskedArray.fget(None)(mask, content, maskedwhen=maskedwhen))
 
     @classmethod
     def _util_regular(cls, array):
-- 
2.43.0


From 185f4d6a95de562d4c56efa6287ff4d06cde5495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 181/181] fix: an array fitted to another one's lists
 (tojagged, and the columns assigned to lists of records) had the wrong items
 if its own do not begin with the first element of its content

---
 awkward0/array/jagged.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 26f6632..a24d15b 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -885,13 +885,15 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if self._overlapping():
                 return self.compact().tojagged(data)
 
-            tmp = self.compact()
-            tmpparents = self.offsets2parents(tmp.offsets)
-
-            index = self.JaggedArray(tmp._starts, tmp._stops, (self.numpy.arange(tmp._stops[-1], dtype=self.INDEXTYPE) - tmp._starts[tmpparents]))
+            counts = self.counts.reshape(-1)
+            offsets = self.counts2offsets(counts)
+            if offsets[-1] == 0:
+                return self.copy(starts=self.numpy.zeros_like(self._starts), stops=self.numpy.zeros_like(self._starts), content=data._content[:0])
 
-            data = data.compact()
-            return self.copy(content=data._content[self.IndexedArray.invert((index + self._starts)._content)])
+            positions = self.numpy.arange(offsets[-1], dtype=self.INDEXTYPE) + self.numpy.repeat(self._starts.reshape(-1) - offsets[:-1], awkward0.util.windows_safe(counts))
+            index = self.numpy.zeros(positions.max() + 1, dtype=self.INDEXTYPE)
+            index[positions] = self.numpy.arange(offsets[-1], dtype=self.INDEXTYPE)
+            return self.copy(content=data.flatten()[index])
 
         elif isinstance(data, awkward0.array.base.AwkwardArray):
             if len(self._starts) != len(data):
-- 
2.43.0

