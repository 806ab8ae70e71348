From a4aff361fe0d5960a1d888097a7fc3b8058d038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:42 +0000
Subject: [PATCH 01/25] fix: hash a PolygonLine by its segments, not by the
 address of a generator

Equal polygons had unequal, run-dependent hashes, so set membership and set
order of polygons (find_loops, keep_base_polygons, disjunct) was random.
---
 geometry/SR_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 7bc403f..705d245 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -92,7 +92,7 @@ class PolygonLine(object):
         return not self.__eq__(other)
 
     def __hash__(self):
-        return hash((s.ij for s in self._segments))
+        return hash(tuple(s.ij for s in self._segments))
 
     @property
     def triangles(self):
-- 
2.43.0


From f050930588441792de5f3c254e4f0952883aa93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:42 +0000
Subject: [PATCH 02/25] fix: aim the control rays of is_internal_point outside
 of the polygon

The targets were scaled from the coordinates of the upper right corner, so with
that corner at or left/below of the origin all rays ended in one point or inside
of the polygon and internal points were reported external.
---
 geometry/SR_polygon.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 705d245..77406b1 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -493,13 +493,15 @@ class PolygonLine(object):
             return False
 
         _bb = self.bounding_box()
-        _x, _y = _bb[0][1], _bb[1][1]
+        _x, _y = _bb[0][1], _bb[1][1]  # upper right corner of the bounding box
+        _d = max(_bb[0][1] - _bb[0][0], _bb[1][1] - _bb[1][0])  # its larger side
         _finished = False
         _inters = []
         while not _finished:
             for i in range(ctrlpkt):
                 # # old solution - a Point somewhere to the north east is taken
-                P = Point((random.uniform(_x, 500 * _x), random.uniform(_y, 30 * _y)))
+                # it must be outside of the polygon wherever the polygon lies
+                P = Point((random.uniform(_x + _d, _x + 500 * _d), random.uniform(_y + _d, _y + 30 * _d)))
                 ls = LineSegment(p, P)  # from p draw line in random direction
 
                 # # new solution: a Line towards the center of gravity and then to infinity
-- 
2.43.0


From 6988e0c9ae4731d0bb0e228a5ffff0a24727cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:56 +0000
Subject: [PATCH 03/25] fix: store a triangulation only when it is complete

An interrupted or failing triangulation left some of the triangles behind, and
the next triangulate() took them for the finished result.
---
 geometry/SR_polygon.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 77406b1..7b51e6b 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -751,7 +751,6 @@ class PolygonLine(object):
         this is NOT a Delaunay triangulation and may fail.
         """
 
-        self._delete_triangles()
         # if self.triangles:
         #     return True
 
@@ -792,6 +791,7 @@ class PolygonLine(object):
             return True
 
         _c = copy.deepcopy(self)
+        _tris = set()  # collected here, stored only when complete
 
         # _c.plot(show=True)
 
@@ -802,6 +802,7 @@ class PolygonLine(object):
             count += 1
 
             if count > 5000:
+                self._delete_triangles()
                 return False
 
             mids, sides, scount = _c.collinear_points
@@ -830,7 +831,7 @@ class PolygonLine(object):
                 continue
 
             # _plot(_c, _l, tri)
-            self._triangles.add(tri)  # the triangle is added to the set
+            _tris.add(tri)  # the triangle is added to the set
 
             # the original polygon is modified
             _c._segments = [x for x in _c._segments if x not in tri.segments]
@@ -842,6 +843,8 @@ class PolygonLine(object):
         #     t.midpoint.plot(show=False)
         # t.plot(show=True)
 
+        self._triangles = _tris
+
         return True
 
     def triangle_mesh(self):
@@ -904,8 +907,6 @@ class PolygonLine(object):
 
             return True
 
-        self._delete_triangles()
-
         # vertices are stored in a dict to have the connection between node numbering and node coordinates
         # here not only the coordinates are stored but thew Point instance to account for float inaccuracies when
         # evaluating equality
@@ -930,6 +931,7 @@ class PolygonLine(object):
         # some polygons can not be triangulated, like those made up from a single segment
         # for these the variable t has no key 'triangles'
         if 'triangles' not in t.keys():
+            self._delete_triangles()
             return False
 
         # if the number of vertices has been changed, the dict vertices must be updated
@@ -937,6 +939,7 @@ class PolygonLine(object):
             if Point(tuple(v)) not in vertices.values():
                 vertices[len(vertices.keys())] = Point(tuple(v))
 
+        _tris = set()  # collected here, stored only when complete
         for tri in t['triangles']:
             _poly = polygon_from_nodes([vertices[x].xy for x in tri])  # a polygon line from the nodes
             _poly.close()  # closing the line
@@ -944,7 +947,7 @@ class PolygonLine(object):
             # checking validity
             if triangle_ok(polygon=self, triangle=_tri):
                 # print('added')
-                self._triangles.add(_tri)
+                _tris.add(_tri)
             else:
                 pass
                 # print('not added')
@@ -952,6 +955,7 @@ class PolygonLine(object):
                 # self.plot(show=False)
                 # _poly.plot(show=True)
 
+        self._triangles = _tris
 
         # # # this shows the result of the triangluation. non-valid triangles are possible
         # import triangle.plot as plot
-- 
2.43.0


From b06e1b0a924803a5956bafb1cb8886083f8a7c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 04/25] fix: do not answer with the area and triangles of an
 earlier shape

area was cached for ever and triangulate() kept any earlier triangles, so after
close(), append_point_*(), move(), rotate_*() or mirror_vertical() both described
the polygon as it was before.
---
 geometry/SR_polygon.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 7b51e6b..5ab141c 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -9,7 +9,6 @@ from geometry import _plotting_available, plt, PURGE
 import random
 import pprint as pp
 import collections
-from cached_property import cached_property
 
 
 TRIANGULATION_ALGORITHM = 'triangle'  # currently only triangle works
@@ -21,6 +20,9 @@ class PolygonLine(object):
     """
     PolygonLine object defined by at least two continuous LineSegment object
     """
+    _triangles_nodes = None  # the nodes self._triangles was calculated for
+    _area = (None, None)  # the nodes the area was calculated for, and the area
+
     def __init__(self, args=None, polygongroup=None):
         if not args:
             args = (LineSegment(), LineSegment())
@@ -94,12 +96,22 @@ class PolygonLine(object):
     def __hash__(self):
         return hash(tuple(s.ij for s in self._segments))
 
+    @property
+    def _nodes(self):
+        """ the coordinates of the endpoints; what has been derived from others is out of date """
+        return [p.xy for s in self._segments for p in s.ij]
+
     @property
     def triangles(self):
+        if self._triangles_nodes != self._nodes:  # not triangulated, or changed since
+            return set()
         return self._triangles
 
+    def _set_triangles(self, triangles):
+        self._triangles, self._triangles_nodes = triangles, self._nodes
+
     def _delete_triangles(self):
-        self._triangles = set()
+        self._set_triangles(set())
 
     @property
     def segments(self):
@@ -599,13 +611,20 @@ class PolygonLine(object):
         else:
             return False
 
-    @cached_property
+    @property
     def area(self):
         """
         checks for the results of three different ways to calculate the area and yields one
         """
+        _nodes, _area = self._area
+        if _nodes == self._nodes:  # calculated already
+            return _area
+
+        _nodes = self._nodes
         if len(set(self.detailled_area.values())) == 1:
-            return self.detailled_area[TRIANGULATION_ALGORITHM]
+            _area = self.detailled_area[TRIANGULATION_ALGORITHM]
+            self._area = (_nodes, _area)
+            return _area
 
         else:
             pp.pprint(self.detailled_area)
@@ -843,7 +862,7 @@ class PolygonLine(object):
         #     t.midpoint.plot(show=False)
         # t.plot(show=True)
 
-        self._triangles = _tris
+        self._set_triangles(_tris)
 
         return True
 
@@ -955,7 +974,7 @@ class PolygonLine(object):
                 # self.plot(show=False)
                 # _poly.plot(show=True)
 
-        self._triangles = _tris
+        self._set_triangles(_tris)
 
         # # # this shows the result of the triangluation. non-valid triangles are possible
         # import triangle.plot as plot
-- 
2.43.0


From bd1c648a6ebcbcf96a05a7541652c4d4ac3f4d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 05/25] fix: walk_segments must see a branch whatever the
 direction of the segments

At a point where two segments continue but only one of them starts there, the
branch went unnoticed, and a loop through it was taken for a branchless one and
removed from the graph. Rooms sharing a wall were then lost or wrong, depending
on the iteration order of a set.
---
 geometry/SR_polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 5ab141c..bbeb51f 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1884,7 +1884,8 @@ def walk_segments(segments=(), startingpoint=None):
             _nextsegment = [x for x in _not_visited if _aktpt in x.ij and x != _aktsegment]  # non-ordered solution
             if not _nextsegment:
                 return False
-        if len(_nextsegment) > 1:
+        # there is a branch if the line could go on in more than one segment, whatever their direction
+        if len([x for x in _not_visited if _aktpt in x.ij and x != _aktsegment]) > 1:
             _has_branch = True
         _nextsegment = _nextsegment[0]
 
-- 
2.43.0


From 59333152cbf44ee248232b05267a29b93478a6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:24 +0000
Subject: [PATCH 06/25] fix: find the parts of a cycle whatever the direction
 of their segments

The segments are shared by the cycles and turned when a cycle is ordered, so a
part of which only some segments belong to a cycle (cut by a raumende) was found
or missed depending on which cycle was ordered the last.
---
 geometry/SR_polygon_group.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 915f40d..2d7aa9a 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -535,9 +535,10 @@ class BehalterGraph(PolygonGroup):
             # finding the polygons that make up a segment
             # loose_subset: during finding the cycles some PolyGonlines are generated, these have the same segments as
             # the originals but may be slightly different (order, direction etc.)
-            # any(): partial overlap, e.g. when one of the original polygons is split by a raumende
+            # any(): partial overlap, e.g. when one of the original polygons is split by a raumende; the direction
+            # of a segment is of no importance, for it is that of the cycle that was ordered the last
             _ret[k] = [x for x in self.polygons if v.loose_subset(other=x)
-                       or any([y in x.segments for y in v.segments])]
+                       or any([y.loose_equal(z) for y in v.segments for z in x.segments])]
 
         return _ret
 
-- 
2.43.0


From b8d964ede0ffbbaef159354d5271b181affcc260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:43 +0000
Subject: [PATCH 07/25] fix: a room is no union of other rooms just because the
 areas are the same

keep_base_polygons took a polygon for the union of others if their areas summed
up to its own, and dropped it, wherever they were.
---
 geometry/SR_polygon_group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 2d7aa9a..3cabb53 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -652,7 +652,9 @@ class BehalterGraph(PolygonGroup):
                 for comb in combs:
                     _all_tris = list(itertools.chain.from_iterable([x.triangles for x in comb]))
                     for p in polygons:
-                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS:
+                        # the same area alone would be found with polygons elsewhere, too
+                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS \
+                                and all(p.is_internal_point(p=tri.midpoint) for tri in _all_tris):
                             _removed_polygons.add(p)
                             polygons.remove(p)
 
-- 
2.43.0


From 06b9897c162aeca5efed4cff3ad03174920945ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:43 +0000
Subject: [PATCH 08/25] fix: compare areas with a tolerance that fits their
 size

With dimensions in mm the areas are in the order of 1e7 and their rounding errors
above EPS: unions of rooms were not recognised, and were reported as rooms.
---
 geometry/SR_polygon_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 3cabb53..f47881d 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -653,7 +653,7 @@ class BehalterGraph(PolygonGroup):
                     _all_tris = list(itertools.chain.from_iterable([x.triangles for x in comb]))
                     for p in polygons:
                         # the same area alone would be found with polygons elsewhere, too
-                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS \
+                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS * max(1., p.area) \
                                 and all(p.is_internal_point(p=tri.midpoint) for tri in _all_tris):
                             _removed_polygons.add(p)
                             polygons.remove(p)
-- 
2.43.0


From c39326446e6c43e025ecd92ee131edbb0ccfb82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:38 +0000
Subject: [PATCH 09/25] fix: polygons that overlap do not make up another one
 together

---
 geometry/SR_polygon_group.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index f47881d..f89547c 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -652,9 +652,11 @@ class BehalterGraph(PolygonGroup):
                 for comb in combs:
                     _all_tris = list(itertools.chain.from_iterable([x.triangles for x in comb]))
                     for p in polygons:
-                        # the same area alone would be found with polygons elsewhere, too
+                        # the same area alone would be found with polygons elsewhere or overlapping, too
                         if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS * max(1., p.area) \
-                                and all(p.is_internal_point(p=tri.midpoint) for tri in _all_tris):
+                                and all(p.is_internal_point(p=tri.midpoint) for tri in _all_tris) \
+                                and not any(y.is_internal_point(p=tri.midpoint) for x, y in
+                                            itertools.permutations(comb, 2) for tri in x.triangles):
                             _removed_polygons.add(p)
                             polygons.remove(p)
 
-- 
2.43.0


From 9d6c8058ee86f977fc825d0831c3694dcae88ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:04 +0000
Subject: [PATCH 10/25] fix: the common part of touching segments is their
 common endpoint

---
 geometry/SR_line.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 60ff6ea..a39ceef 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -429,8 +429,13 @@ class LineSegment(object):
                 return None
 
         else:
+            # the common endpoint, not the intersection of the lines: when these are almost parallel the latter
+            # can be far away from both segments
+            if self.touch(other):
+                return copy.deepcopy(min(self.ij, key=lambda x: min(distance(x, y) for y in other.ij)))
+
             ip = self.intersection_point(other)  # intersection point
-            if self.intersection_on_segment(other) or self.touch(other):
+            if self.intersection_on_segment(other):
                 return ip
             else:
                 return None
-- 
2.43.0


From d3c58031f836bfeef152221c4edf40493f8bd6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:23 +0000
Subject: [PATCH 11/25] fix: the analysis of a vessel must not turn the walls
 of its parts around

---
 geometry/SR_polygon_group.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index f89547c..e7ce88d 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -6,6 +6,7 @@ from cached_property import cached_property
 import itertools
 from geometry.SR_polygon import TRIANGULATION_ALGORITHM
 from collections import Counter
+import copy
 
 
 class PolygonGroup(object):
@@ -86,7 +87,7 @@ class PolygonGroup(object):
         for k, v in self.segments_in_cycles.items():  # dict with cycle: points in cycle (integer numbered)
             segs = list(itertools.chain.from_iterable([x.wall_segments for x in v]))  # all segments in the cycle
 
-            _ch = PolygonLine(remove_outlier_segments(segs))
+            _ch = PolygonLine(copy.deepcopy(remove_outlier_segments(segs)))  # order() turns segments: not those of the parts
             _ch.order()
 
             # _ret[k] = [self.points_numbered[x] for x in itertools.chain([x.i for x in _ch.segments])]  # Points, ordered
@@ -555,7 +556,7 @@ class BehalterGraph(PolygonGroup):
 
         # first loop: no input - initialization
         if graph is None:
-            graph = list(set(self.all_segments))
+            graph = copy.deepcopy(list(set(self.all_segments)))  # order() turns segments: not those of the parts
 
         if cycles is None:
             cycles = []
-- 
2.43.0


From 7c71995ee0d23fe1846fcba2d0f51c8686f02210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:21 +0000
Subject: [PATCH 12/25] fix: polygons are not disjunct just because they are
 not triangulated

---
 geometry/SR_polygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index bbeb51f..6362670 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -153,6 +153,8 @@ class PolygonLine(object):
         """
         two polygons are disjunct if none of their triangles (from triangulation) overlap or are congruent
         """
+        for x in (self, other):
+            x.triangulate()  # if not done yet; without triangles everything would be disjunct
         _all_tri_pairs = itertools.combinations(itertools.chain.from_iterable([x.triangles for x in [self, other]]), 2)
         if any(x[0].overlap(x[1]) or x[0].congruent(x[1]) for x in _all_tri_pairs):
             return False
-- 
2.43.0


From 1e44d9214704b33fd497613852e9e5185190cdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:21 +0000
Subject: [PATCH 13/25] fix: numbering the points of a group must not tie its
 parts together

---
 geometry/SR_polygon_group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index e7ce88d..7b84fa1 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -243,8 +243,8 @@ class PolygonGroup(object):
         This PolygonLine is not necessarily valid, but can be used as a Graph of the PolygonGroup
         """
         # _sum = sum([x.segments for x in self.polygons], [])
-        _sum = itertools.chain.from_iterable([x.segments for x in self.polygons])
-        pl = PolygonLine(_sum)
+        _sum = copy.deepcopy([x.segments for x in self.polygons])  # purge() makes them share points: not those of the parts
+        pl = PolygonLine(itertools.chain.from_iterable(_sum))
         pl.purge()
         return pl
 
-- 
2.43.0


From 4a1f80ee031cdbd936061baac351276449fd7c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:51 +0000
Subject: [PATCH 14/25] fix: judge whether a point is on a line as exactly as
 the coordinates allow

---
 geometry/SR_line.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index a39ceef..54b07f1 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -187,8 +187,9 @@ class LineSegment(object):
             return True
 
         # print(abs(self.cross_product(LineSegment(self.i, p))))
-        if abs(self.crossproduct_commonstart(LineSegment(self.i, p))) < EPS:
-
+        # the coordinates are rounded to EPS; the longer the segments the more this makes in the crossproduct
+        _ip = LineSegment(self.i, p)
+        if abs(self.crossproduct_commonstart(_ip)) < EPS * max(1., self.norm + _ip.norm):
             return True
         else:
             return False
-- 
2.43.0


From 60e3725adfcef25a487a0cc3f002200ce1049b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:32 +0000
Subject: [PATCH 15/25] fix: a point appended to a line that is there already
 must not become a double of it

---
 geometry/SR_polygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 6362670..3aae71a 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -275,6 +275,7 @@ class PolygonLine(object):
         """
         assert p.isvalid  # a Point object
 
+        p = next((x for x in self.all_points if x == p), p)  # being purged means there are no duplicates
         self._segments.append(LineSegment(self.last_point, p))
 
     def append_point_at_beginning(self, p=EMPTY):
@@ -285,6 +286,7 @@ class PolygonLine(object):
         """
         assert p.isvalid  # a Point object
 
+        p = next((x for x in self.all_points if x == p), p)  # being purged means there are no duplicates
         self._segments.insert(0, LineSegment(p, self.first_point))
 
     def add_internal_point(self, p=EMPTY, segment=None):
-- 
2.43.0


From b6a711f231d7fafa73ad319026bd12a011483594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:18 +0000
Subject: [PATCH 16/25] fix: compute intersections relative to the segment, not
 to the origin

---
 geometry/SR_line.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 54b07f1..0bde620 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -380,20 +380,15 @@ class LineSegment(object):
             return None
 
         else:
-            _x1 = self.i.x
-            _y1 = self.i.y
-            _x2 = self.j.x
-            _y2 = self.j.y
-
-            _x3 = other.i.x
-            _y3 = other.i.y
-            _x4 = other.j.x
-            _y4 = other.j.y
-
-            _den = float((_x1 - _x2) * (_y3 - _y4) - (_y1 - _y2) * (_x3 - _x4))
-            _num_x = (_x1 * _y2 - _y1 * _x2) * (_x3 - _x4) - (_x1 - _x2) * (_x3 * _y4 - _y3 * _x4)
-            _num_y = (_x1 * _y2 - _y1 * _x2) * (_y3 - _y4) - (_y1 - _y2) * (_x3 * _y4 - _y3 * _x4)
-            return Point(((_num_x / _den), (_num_y / _den)))
+            # relative to self.i: products of the coordinates themselves would cost accuracy far from the origin
+            _x2 = self.delta_x
+            _y2 = self.delta_y
+
+            _x3 = other.i.x - self.i.x
+            _y3 = other.i.y - self.i.y
+
+            _ratio = (_x3 * other.delta_y - _y3 * other.delta_x) / float(_x2 * other.delta_y - _y2 * other.delta_x)
+            return Point((self.i.x + _ratio * _x2, self.i.y + _ratio * _y2))
 
     def common_part(self, other):
         """
-- 
2.43.0


From 9858c0a4e94d5a6b8e3dad78734043c841d01ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 17/25] fix: walk_segments must not turn the segments it has
 still to visit

---
 geometry/SR_polygon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 3aae71a..df0b852 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1899,8 +1899,8 @@ def walk_segments(segments=(), startingpoint=None):
         _aktpt = [x for x in _aktsegment.ij if x != _aktpt][0]
 
         # check if we have a branchless closed loop?
-        segs = copy.deepcopy(_visited)
-        segs.add(_nextsegment)
+        # order() turns segments: not the ones still to be visited
+        segs = copy.deepcopy(_visited | {_nextsegment})
         _poly = PolygonLine(segs)
         if _poly.order() and _poly.isclosed and not _has_branch:
             return _poly
-- 
2.43.0


From 17db85ad092f8d77295bc72b96cbaf1d5bf7b99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 18/25] fix: order() must refuse segments that are not one
 cycle instead of dropping some

---
 geometry/SR_polygon.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index df0b852..3d5f87f 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -256,6 +256,11 @@ class PolygonLine(object):
             if count > 500:
                 raise Exception('WTF')
 
+        # segments left over (other than duplicates): it was not one cycle, and they must not get lost
+        _ends = [set(x.ij) for x in _ret]
+        if any(set(x.ij) not in _ends for x in self._segments):
+            return False
+
         # finished ordering the polygon
         # making sure the resulting polygon is always the same: sorting the segments so that the first is the one
         # that has its i endpoint the closest to the origin
-- 
2.43.0


From f856a227ab901903f100175c77687feb4be4a521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:04 +0000
Subject: [PATCH 19/25] fix: order() must not give up on cycles of 250 and more
 segments

---
 geometry/SR_polygon.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 3d5f87f..f8e5f54 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -253,9 +253,6 @@ class PolygonLine(object):
             _end = _nxt.j
             _akt = _nxt
 
-            if count > 500:
-                raise Exception('WTF')
-
         # segments left over (other than duplicates): it was not one cycle, and they must not get lost
         _ends = [set(x.ij) for x in _ret]
         if any(set(x.ij) not in _ends for x in self._segments):
-- 
2.43.0


From 8ea287315c2450f80324d76d8db302c16547d04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 20/25] fix: leave slivers of no area out of the triangulation
 instead of failing

---
 geometry/SR_polygon.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index f8e5f54..ec1ba66 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -966,6 +966,12 @@ class PolygonLine(object):
 
         _tris = set()  # collected here, stored only when complete
         for tri in t['triangles']:
+            # slivers between lines that lie on each other but for rounding: no triangles, as exactly as can be told
+            _ab, _ac = [LineSegment(vertices[tri[0]], vertices[x]) for x in tri[1:]]
+            _size = _ab.norm + _ac.norm
+            if abs(_ab.crossproduct(_ac)) < 10 * EPS * _size * max(1., _size):
+                continue
+
             _poly = polygon_from_nodes([vertices[x].xy for x in tri])  # a polygon line from the nodes
             _poly.close()  # closing the line
             _tri = Triangle(_poly.segments)  # a triangle is formed from the polygons segments
-- 
2.43.0


From 34c5e2431fb43657e9e12b02c388b3ba3f57121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 21/25] fix: a point within the rounding of a segment's box is
 in the box, on each of its sides

---
 geometry/SR_line.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 0bde620..1d91fae 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -170,8 +170,9 @@ class LineSegment(object):
         _i = self.i
         _j = self.j
 
-        if min(_i.x, _j.x) - EPS < p.x <= max(_i.x, _j.x) + EPS\
-                and min(_i.y, _j.y) - EPS <= p.y <= max(_i.y, _j.y) + EPS:
+        _tol = 1.5 * EPS  # a coordinate is off by EPS when it is rounded the other way; half more for the arithmetic here
+        if min(_i.x, _j.x) - _tol <= p.x <= max(_i.x, _j.x) + _tol\
+                and min(_i.y, _j.y) - _tol <= p.y <= max(_i.y, _j.y) + _tol:
             return True
         else:
             return False
-- 
2.43.0


From e1e2d8407df82ff78711443070f242cca5eee343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:23 +0000
Subject: [PATCH 22/25] fix: a cone whose axis is vertical but for rounding is
 valid

---
 SR_Vessel/SR_hauptteile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index af68e05..8970ff6 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 
-from geometry.SR_point import Point
+from geometry.SR_point import Point, EPS
 from geometry.SR_line import LineSegment, point_on_line_at_ratio
 from geometry.SR_polygon import PolygonLine, arc, intersecting_lines, simplify
 from geometry.SR_polygon_group import PolygonGroup, BehalterGraph, Graph
@@ -707,7 +707,7 @@ class Mantel(Hauptteil):
         _ok = []
         _ok.append((_s[0].i.y == _s[1].j.y))  # lower points y coordinates
         _ok.append((_s[0].j.y == _s[1].i.y))  # upper points y coordinates
-        _ok.append((_s[0].i.x + _s[1].j.x) / 2 == (_s[0].j.x + _s[1].i.x) / 2)  # axis vertical
+        _ok.append(abs((_s[0].i.x + _s[1].j.x) / 2 - (_s[0].j.x + _s[1].i.x) / 2) < 10 * EPS)  # axis vertical, x is rounded
         if not all(_ok):
             return False
 
-- 
2.43.0


From fff0281c4273328df502e9e043253b761e82e9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:23 +0000
Subject: [PATCH 23/25] fix: a skirt made from a dict is a skirt

---
 SR_Vessel/SR_hauptteile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 8970ff6..363e903 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -628,7 +628,7 @@ class Mantel(Hauptteil):
     @classmethod
     def from_dict(cls, adict):
         try:
-            mantel = Mantel(
+            mantel = cls(
                 name=adict['name'],
                 pos_v=adict['pos_v'],
                 pos_h=adict['pos_h'],
-- 
2.43.0


From 10e0bee70e61717c29f22437de5ba2d2a631c430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 24/25] fix: PolygonGroup.isvalid overlooks nodes with ten or
 more edges

---
 geometry/SR_polygon_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 7b84fa1..52624e5 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -170,7 +170,7 @@ class PolygonGroup(object):
         _al = self.as_adjacency_list(as_numbered=True)
         nd = {}
         for n in range(10):
-            nd[n] = sum([1 for x in _al.keys() if len(_al[x]) == n])
+            nd[n] = sum([1 for x in _al.keys() if min(len(_al[x]), 9) == n])
 
         if nd[0] > 0:  # has non-connected node
             print('has non-connected node')
-- 
2.43.0


From 8aae6eee745973c96c63b65b3a2fc947b54c5149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 25/25] fix: the rooms beside a vessel are taken for rooms
 inside of it

---
 SR_Vessel/SR_hauptteile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 363e903..6229497 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -283,10 +283,13 @@ class Behalter(PolygonGroup):
                     # print('there are internal walls')
 
                     _cycles_to_check = self.contained_cycles[c]
+                    _contained = list(_cycles_to_check)
                     # first, check the cycles that are overlapping (if any)
                     _iw = []  # innere Wandung
                     _visited = []
                     for k, v in self.overlaps_in_cycles.items():  # k: tuple of cycles that have common segment, eg. (0, 1)
+                        if not all([x in _contained for x in k]):  # not inside of this one
+                            continue
                         # first run
                         if not _visited:
                             _iw.append([])
-- 
2.43.0

