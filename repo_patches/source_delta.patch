From 42c67f50416718822db6bbf1a78acbd098e11a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 01/16] fix: memoize no longer loses its cache when threads
 share an object

Two threads that both found no _cache each installed an empty one, so the first
one looked its answer up in a cache that did not hold it and raised KeyError.
---
 curver/kernel/decorators.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/curver/kernel/decorators.py b/curver/kernel/decorators.py
index b71d5d7..459060e 100644
--- a/curver/kernel/decorators.py
+++ b/curver/kernel/decorators.py
@@ -11,16 +11,15 @@ def memoize(function, *args, **kwargs):
     inputs = inspect.getcallargs(function, *args, **kwargs)  # pylint: disable=deprecated-method
     self = inputs.pop('self', function)  # We test whether function is a method by looking for a `self` argument. If not we store the cache in the function itself.
     
-    if not hasattr(self, '_cache'):
-        self._cache = dict()
+    cache = vars(self).setdefault('_cache', dict())  # Atomic, so that threads sharing self agree on its cache.
     key = (function.__name__, frozenset(inputs.items()))
-    if key not in self._cache:
+    if key not in cache:
         try:
-            self._cache[key] = function(*args, **kwargs)
+            cache[key] = function(*args, **kwargs)
         except Exception as error:  # pylint: disable=broad-except
-            self._cache[key] = error
+            cache[key] = error
     
-    result = self._cache[key]
+    result = cache[key]
     if isinstance(result, Exception):
         raise result
     else:
-- 
2.43.0


From c5c138c13ac1716eb816de026252528e1fcd5221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 02/16] fix: memoize no longer remembers interruptions as
 answers

An out of memory, recursion limit or timeout error raised part way through a
memoized query was stored and raised again by every later query.
---
 curver/kernel/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/decorators.py b/curver/kernel/decorators.py
index 459060e..1828627 100644
--- a/curver/kernel/decorators.py
+++ b/curver/kernel/decorators.py
@@ -16,7 +16,7 @@ def memoize(function, *args, **kwargs):
     if key not in cache:
         try:
             cache[key] = function(*args, **kwargs)
-        except Exception as error:  # pylint: disable=broad-except
+        except ValueError as error:  # Anything else (MemoryError, RecursionError, timeouts, ...) is not an answer so must not be remembered.
             cache[key] = error
     
     result = cache[key]
-- 
2.43.0


From fdd3ecacd49a7f66097a6daf3f70fbe109584cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:07 +0000
Subject: [PATCH 03/16] fix: MappingClassGroup no longer adds its twists to the
 caller's dictionary

---
 curver/kernel/mappingclassgroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/mappingclassgroup.py b/curver/kernel/mappingclassgroup.py
index 780714a..1e6018f 100644
--- a/curver/kernel/mappingclassgroup.py
+++ b/curver/kernel/mappingclassgroup.py
@@ -21,7 +21,7 @@ class MappingClassGroup:
     Most importantly this object can construct a mapping class from a string descriptor.
     See self.mapping_class for additional information. '''
     def __init__(self, pos_mapping_classes=None, curves=None, arcs=None):
-        if pos_mapping_classes is None: pos_mapping_classes = dict()
+        pos_mapping_classes = dict() if pos_mapping_classes is None else dict(pos_mapping_classes)  # The twists added below are not for the caller's dictionary.
         if curves is None: curves = dict()
         if arcs is None: arcs = dict()
         
-- 
2.43.0


From 3e7eb761081191972587afaa654ea81a842b9360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 04/16] fix: intersection measures peripheral components
 against the shortened laminations

---
 curver/kernel/lamination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 439c4d0..1fb9f51 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -326,8 +326,8 @@ class IntegralLamination(Lamination):
         
         # Peripheral components.
         for _, (multiplicity, vertex) in short.peripheral_components().items():
-            for lamination in laminations:
-                intersection += multiplicity * sum(max(-lamination(edge), 0) + max(-lamination.left_weight(edge), 0) for edge in vertex)
+            for short_lamination in short_laminations:
+                intersection += multiplicity * sum(max(-short_lamination(edge), 0) + max(-short_lamination.left_weight(edge), 0) for edge in vertex)
         
         # Parallel components.
         for component, (multiplicity, p) in short.parallel_components().items():
-- 
2.43.0


From 46a8cb2a495e7fca3a24d6b4efdb29d7e08105fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 05/16] fix: linear transformations and lifts can be packaged,
 pickled and restored

---
 curver/kernel/crush.py         |  5 ++++-
 curver/kernel/triangulation.py | 13 +++++++++++++
 curver/kernel/utilities.py     |  2 ++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/crush.py b/curver/kernel/crush.py
index 941df56..65fa955 100644
--- a/curver/kernel/crush.py
+++ b/curver/kernel/crush.py
@@ -155,7 +155,7 @@ class LinearTransformation(Move):
         return np.array_equal(self.matrix, other.matrix)
     
     def package(self):
-        return (self.target_triangulation.sig(), self.matrix.tolist())
+        return (self.target_triangulation.sig(), self.matrix.tolist(), self.inverse().matrix.tolist())
     
     def apply_lamination(self, lamination):
         return self.target_triangulation(self.matrix.dot(lamination.geometric).tolist())
@@ -175,6 +175,9 @@ class Lift(LinearTransformation):
     def __str__(self):
         return f'Lift to {self.target_triangulation}'
     
+    def package(self):
+        return (self.target_triangulation.sig(), self.inverse().package())
+    
     def apply_lamination(self, lamination):
         assert all(lamination(edge) >= 0 and lamination.left_weight(edge) >= 0 for vertex in self.vertices for edge in vertex)
         
diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 8b5f736..6606000 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -817,6 +817,8 @@ class Triangulation:
          - A dictionary which has i or ~i as a key (for every i) represents a relabelling.
          - A dictionary which is missing i and ~i (for some i) represents an isometry back to this triangulation.
          - A pair (e, p) represents a Twist or HalfTwist to the power p, depending on whether the edge e connects distinct vertices.
+         - A pair (sig, c) represents a Lift, the inverse of the Crush that c represents on the triangulation with that signature.
+         - A triple (sig, M, N) represents a LinearTransformation by M, with inverse N, to the triangulation with that signature.
          - None represents the identity isometry.
         
         This sequence is read in reverse in order to respect composition. For example:
@@ -842,6 +844,17 @@ class Triangulation:
                     term = T.encode_relabel_edges(item)
                 else:  # If some edges are missing then we assume that we must be mapping back to this triangulation.
                     term = T.find_isometry(self, item)
+            elif isinstance(item, tuple) and len(item) == 2 and isinstance(item[0], str):  # Lift.
+                sig, crush = item
+                term = curver.triangulation_from_sig(sig).encode([crush]).inverse()
+            elif isinstance(item, tuple) and len(item) == 3:  # LinearTransformation.
+                sig, matrix, inverse_matrix = item
+                term = curver.kernel.create.lineartransformation(
+                    T,
+                    curver.triangulation_from_sig(sig),
+                    np.array(matrix, dtype=object),
+                    np.array(inverse_matrix, dtype=object)
+                    ).encode()
             elif isinstance(item, tuple) and len(item) == 2:  # Twist or HalfTwist.
                 label, power = item
                 edge = Edge(label)
diff --git a/curver/kernel/utilities.py b/curver/kernel/utilities.py
index 8baf667..056115f 100644
--- a/curver/kernel/utilities.py
+++ b/curver/kernel/utilities.py
@@ -147,6 +147,8 @@ class Half:
         return self * other
     def __call__(self, other):
         return self * other
+    def __reduce__(self):
+        return 'half'  # There is only one.
 
 half = Half()
 
-- 
2.43.0


From 54ad6eebf4ac0862321860f4691cb6577d078fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 06/16] fix: failing to export an image is reported to the user

Tk raises a TclError, not an IOError, when it cannot write to the chosen path.
---
 curver/application/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/application/main.py b/curver/application/main.py
index 26a67e9..284f0ad 100644
--- a/curver/application/main.py
+++ b/curver/application/main.py
@@ -520,7 +520,7 @@ class CurverApplication:
         if path:
             try:
                 self.current_drawing().canvas.postscript(file=path, colormode='color')
-            except IOError:
+            except (IOError, TK.TclError):  # Tk reports all of its own problems, including not being able to write to path, as TclErrors.
                 TK_MESSAGE.showwarning('Export Error', 'Could not open: %s' % path)
     
     def quit(self):
-- 
2.43.0


From e73c2b44c040e889e652bdfe1b353dd8d75d1c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 07/16] fix: the viewer opens even when its icon cannot be
 loaded

---
 curver/application/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/application/main.py b/curver/application/main.py
index 284f0ad..7f42f16 100644
--- a/curver/application/main.py
+++ b/curver/application/main.py
@@ -547,8 +547,8 @@ def start(*items):
     # See: http://cx-freeze.readthedocs.org/en/latest/faq.html#using-data-files
     datadir = os.path.dirname(sys.executable if getattr(sys, 'frozen', False) else __file__)
     icon_path = os.path.join(datadir, 'icon', 'icon.gif')
-    img = TK.PhotoImage(file=icon_path)
     try:
+        img = TK.PhotoImage(file=icon_path)
         root.tk.call('wm', 'iconphoto', root._w, img)
     except TK.TclError:
         # Give up if we can't set the icon for some reason.
-- 
2.43.0


From 823a7dd7d9eecee5e8726d301cf0fdcddea37fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 08/16] fix: the viewer refuses objects that it cannot draw

Previously these were given an empty tab and every later change of the options
failed with an AttributeError before reaching the remaining tabs.
---
 curver/application/main.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/curver/application/main.py b/curver/application/main.py
index 7f42f16..687ab75 100644
--- a/curver/application/main.py
+++ b/curver/application/main.py
@@ -71,12 +71,14 @@ class Drawing:
         
         if isinstance(item, curver.kernel.MappingClassGroup):
             self.draw_lamination(item.triangulation.empty_lamination())
-        if isinstance(item, curver.kernel.Triangulation):
+        elif isinstance(item, curver.kernel.Triangulation):
             self.draw_lamination(item.empty_lamination())
         elif isinstance(item, curver.kernel.Lamination):
             self.draw_lamination(item)
         elif isinstance(item, curver.kernel.MappingClass):
             self.draw_lamination(item(item.source_triangulation.as_lamination()))
+        else:
+            raise TypeError('cannot show objects of type %s' % type(item).__name__)
     
     def get_size(self):
         # Return the size of the canvas.
@@ -554,7 +556,11 @@ def start(*items):
         # Give up if we can't set the icon for some reason.
         # This seems to be a problem if you start curver within SnapPy.
         pass
-    CurverApplication(root, items)
+    try:
+        CurverApplication(root, items)
+    except BaseException:
+        root.destroy()  # Don't leave a broken window behind.
+        raise
     root.mainloop()
 
 if __name__ == '__main__':
-- 
2.43.0


From 470dcf12f8539fade6cbe3385103721066397f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 09/16] fix: the viewer no longer unpacks objects that happen
 to have length two

A triangulation with two triangles or a mapping class with two moves was
mistaken for a (name, object) pair.
---
 curver/application/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/application/main.py b/curver/application/main.py
index 687ab75..6527421 100644
--- a/curver/application/main.py
+++ b/curver/application/main.py
@@ -414,9 +414,9 @@ class CurverApplication:
         
         if isinstance(items, dict):  # dict.
             items = [Showable(key, item) for key, item in sorted(dict(items).items(), key=lambda x: x[0])]
-        try:  # list of pairs.
+        if all(isinstance(item, (list, tuple)) and len(item) == 2 for item in items):  # list of pairs.
             items = [Showable(key, item) for key, item in items]
-        except (TypeError, ValueError):  # list.
+        else:  # list.
             items = [Showable(str(index), item) for index, item in enumerate(items)]
         self.items = items
         
-- 
2.43.0


From 3e9480e1760a668d121f93d4b39b6a54f7e402e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 10/16] fix: changing the size option resizes the vertices
 immediately

Previously these kept their old size until the next zoom.
---
 curver/application/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curver/application/main.py b/curver/application/main.py
index 6527421..bc60e27 100644
--- a/curver/application/main.py
+++ b/curver/application/main.py
@@ -328,6 +328,8 @@ class Drawing:
     def redraw(self):
         self.create_edge_labels()
         
+        for vertex in self.vertices:
+            vertex.update()  # The size of the dots may have changed.
         self.canvas.itemconfig('line', width=self.options.line_size)
         self.canvas.itemconfig('curve', width=self.options.line_size)
         # Only put arrows on the start so arrow heads appear in the middle.
-- 
2.43.0


From 4f8ea690ece7bff8326a67a81f5def8a6719cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:55 +0000
Subject: [PATCH 11/16] fix: the viewer can draw terminal arcs in thin
 triangles

When an arc runs into a corner neither of the rays needs to be in front of it.
---
 curver/application/pieces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/application/pieces.py b/curver/application/pieces.py
index 0eafa44..28e5cff 100644
--- a/curver/application/pieces.py
+++ b/curver/application/pieces.py
@@ -44,11 +44,11 @@ def interpolate(A, B, C, r, s):
     centroid = (A + B + C) / 3
     d1a = intersection(X, d.rotate(90), B, centroid - B)[0]
     d1b = intersection(X, d.rotate(90), A, centroid - A)[0]
-    t = min([x for x in [d1a, d1b] if x > 0]) / 2
+    t = min([x for x in [d1a, d1b] if x > 0], default=0) / 2
     
     d2a = intersection(Y, d2.rotate(-90), B, centroid - B)[0]
     d2b = intersection(Y, d2.rotate(-90), C, centroid - C)[0]
-    t2 = min([x for x in [d2a, d2b] if x > 0]) / 2
+    t2 = min([x for x in [d2a, d2b] if x > 0], default=0) / 2
     
     P = X + t * d.rotate(90)
     Q = Y + t2 * d2.rotate(-90)
-- 
2.43.0


From dd886df0dcd7ee9582748aa410363195b8e161d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:55 +0000
Subject: [PATCH 12/16] fix: the viewer can draw integral laminations whose
 weights are not ints

A lamination with weights such as Fraction(3, 1) is integral, but range() rejects these.
---
 curver/application/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/application/main.py b/curver/application/main.py
index bc60e27..a1d7732 100644
--- a/curver/application/main.py
+++ b/curver/application/main.py
@@ -290,9 +290,9 @@ class Drawing:
         else:  # Draw everything. Caution, this is is VERY slow (O(n) not O(log(n))) so we only do it when the weight is low.
             for triangle in self.triangles:
                 weights = [max(lamination(edge.label), 0) for edge in triangle.edges]
-                dual_weights = [lamination.dual_weight(edge.label) for edge in triangle.edges]
+                dual_weights = [int(lamination.dual_weight(edge.label)) for edge in triangle.edges]  # Integral but not necessarily ints.
                 parallel_arcs = [max(-lamination(edge.label), 0) for edge in triangle.edges]
-                parallel_weights = [weight // 2 + (weight % 2 if edge.label >= 0 else 0) for edge, weight in zip(triangle.edges, parallel_arcs)]
+                parallel_weights = [int(weight // 2 + (weight % 2 if edge.label >= 0 else 0)) for edge, weight in zip(triangle.edges, parallel_arcs)]
                 for i in range(3):  # Dual arcs:
                     if dual_weights[i] > 0:
                         s_a = (1 - 2*vb) * weights[i-2] / master
-- 
2.43.0


From 503d8db210598974b31df9d7839a0a7401c22b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:02 +0000
Subject: [PATCH 13/16] fix: encode accepts a partial relabelling back to the
 starting triangulation

---
 curver/kernel/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 6606000..060cfd4 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -843,7 +843,7 @@ class Triangulation:
                 if all(i in item or ~i in item for i in self.indices):
                     term = T.encode_relabel_edges(item)
                 else:  # If some edges are missing then we assume that we must be mapping back to this triangulation.
-                    term = T.find_isometry(self, item)
+                    term = T.find_isometry(self, item).encode()
             elif isinstance(item, tuple) and len(item) == 2 and isinstance(item[0], str):  # Lift.
                 sig, crush = item
                 term = curver.triangulation_from_sig(sig).encode([crush]).inverse()
-- 
2.43.0


From 01f7ffd12069ab377e017f48880cefa978890edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 14/16] fix: topological types no longer depend on how the
 triangulation is labelled

---
 curver/kernel/lamination.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 1fb9f51..9154b09 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -559,17 +559,14 @@ class IntegralLamination(Lamination):
         best_node_labels = [node_labels[node] for node in nodes]  # We know the best node labels right away.
         best_link_labels = None
         best_node_markings = None
+        # Find the permutation of the nodes that minimises (link_labels, node_markings) lexicographically.
         for X in product(*(permutations(g) for k, g in groupby(range(len(nodes)), key=lambda i: node_labels[nodes[i]]))):  # pylint: disable=too-many-nested-blocks
             perm = list(chain(*X))
             
-            inverse_perm = [None] * len(perm)
-            for index, i in enumerate(perm):
-                inverse_perm[i] = index
-            permuted_link_labels = [link_labels[i][j] for index, i in enumerate(inverse_perm) for j in inverse_perm[index:]]
+            permuted_link_labels = [link_labels[i][j] for index, i in enumerate(perm) for j in perm[index:]]
             
-            if best_link_labels is not None and permuted_link_labels >= best_link_labels:
+            if best_link_labels is not None and permuted_link_labels > best_link_labels:
                 continue
-            best_link_labels = list(permuted_link_labels)
             
             permuted_nodes = [nodes[i] for i in perm]
             permuted_node_lookup = dict((node, index) for index, node in enumerate(permuted_nodes))
@@ -577,7 +574,7 @@ class IntegralLamination(Lamination):
             # Build marking.
             node_markings = []
             for node in permuted_nodes:
-                starting_edges = [edge for edge in node if image(edge)]
+                starting_edges = [edge for edge in node if image(edge)] if node not in duplicated_boundary else []  # Fake nodes are curves.
                 if starting_edges:  # Skip nodes that do not have any markings.
                     best_node_marking = None
                     for starting_edge in starting_edges:
@@ -608,8 +605,9 @@ class IntegralLamination(Lamination):
                 else:
                     node_markings.append([])
             
-            if best_node_markings is not None and node_markings >= best_node_markings:
+            if best_link_labels is not None and (permuted_link_labels, node_markings) >= (best_link_labels, best_node_markings):
                 continue
+            best_link_labels = permuted_link_labels
             best_node_markings = node_markings
         
         return TopologicalType(best_node_labels, best_link_labels, best_node_markings)
-- 
2.43.0


From 81b3e57c71eb3dee454e734761884e34140a9db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:49 +0000
Subject: [PATCH 15/16] fix: a band of a terminal arc is placed beside the
 strands before it

---
 curver/application/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/application/main.py b/curver/application/main.py
index a1d7732..7f23a42 100644
--- a/curver/application/main.py
+++ b/curver/application/main.py
@@ -271,7 +271,7 @@ class Drawing:
                     elif dual_weights[i] < 0:  # Terminal arc.
                         s_0 = (1 - 2*vb) * weights[i] / master
                         
-                        scale_a = (1 - s_0) / 2 + s_0 * dual_weights[i-2] / weights[i]
+                        scale_a = (1 - s_0) / 2 + s_0 * dual_weights[i-1] / weights[i]
                         scale_a2 = scale_a + s_0 * (-dual_weights[i]) / weights[i]
                         
                         S1, P1, Q1, E1 = curver.application.interpolate(triangle[i-2].vector, triangle[i-1].vector, triangle[i].vector, scale_a, 1.0)
-- 
2.43.0


From 2bf917ec1a137b25a2ff5e2eebad926dffd5c892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:49 +0000
Subject: [PATCH 16/16] fix: a band parallel to an edge stays inside its
 triangle

---
 curver/application/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/application/main.py b/curver/application/main.py
index 7f23a42..744e3e4 100644
--- a/curver/application/main.py
+++ b/curver/application/main.py
@@ -285,7 +285,7 @@ class Drawing:
                         S, O, E = triangle[i-2].vector, triangle[i].vector, triangle[i-1].vector
                         M = (S + E) / 2.0
                         centroid = (S + O + E) / 3.0
-                        P = M + 1.0 * (centroid - M) * (parallel_weights[i]+1) / master
+                        P = M + 1.0 * (centroid - M) * parallel_weights[i] / master
                         self.create_curve_component([S, S, P, E, E, S, S], thin=False)
         else:  # Draw everything. Caution, this is is VERY slow (O(n) not O(log(n))) so we only do it when the weight is low.
             for triangle in self.triangles:
-- 
2.43.0

