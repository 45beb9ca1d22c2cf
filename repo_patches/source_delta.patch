From 40221538f10652104680dc59eb92c81b3e79c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 01/47] fix: save_gcode writes the program instead of the
 object repr

---
 src/cq_cam/fluent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 4ca81f9..7598291 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -283,7 +283,7 @@ class Job:
         )
 
     def save_gcode(self, file_name):
-        gcode = str(self)
+        gcode = self.to_gcode()
         with open(file_name, "w") as f:
             f.write(gcode)
 
-- 
2.43.0


From 270226fe079dad6a976cd579ef1fa4beb9577cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 02/47] fix: update_tool must not modify the job it is called
 on

---
 src/cq_cam/fluent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 7598291..12207bf 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -134,7 +134,8 @@ class Job:
                 commands = [StartSequence(speed, self.coolant)]
                 self = self._add_operation("Speed Change", commands)
 
-            # Update Job attributes
+            # Update Job attributes on a copy, the original job must not change
+            self = copy(self)
             self.tool_number = tool_number
             self.tool_diameter = tool_diameter
             self.feed = feed
-- 
2.43.0


From 79b3e0580acfa916592b26b3d3539bc42ecce390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:23 +0000
Subject: [PATCH 03/47] fix: start the spindle with the speed of the first
 operation

---
 src/cq_cam/fluent.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 12207bf..c231444 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -273,10 +273,13 @@ class Job:
 
     def to_gcode(self):
         task_break = "\n\n\n"
+        # The program starts with the speed of its first operation, later
+        # changes are operations of their own
+        start_speed = self.operations[0].job.speed if self.operations else self.speed
         return (
             f"({self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)})\n"
             f"{SafetyBlock()}\n"
-            f"{StartSequence(speed=self.speed, coolant=self.coolant)}\n"
+            f"{StartSequence(speed=start_speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
             f"{SafetyBlock()}\n"
             f"{StopSequence(coolant=self.coolant)}\n"
-- 
2.43.0


From 554029e074f36be7b6dc0ec8d1f19ba9fb6f7eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 04/47] fix: set the job's units, work offset and path mode in
 the program

---
 src/cq_cam/command.py | 21 ++++++++++++++++++---
 src/cq_cam/fluent.py  |  5 +++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/cq_cam/command.py b/src/cq_cam/command.py
index 30b696d..40dec76 100644
--- a/src/cq_cam/command.py
+++ b/src/cq_cam/command.py
@@ -415,6 +415,21 @@ class StopSequence(ConfigCommand):
 
 
 class SafetyBlock(ConfigCommand):
+    unit: Unit
+    coordinate: WorkOffset
+    controller_motion: PlannerControlMode
+
+    def __init__(
+        self,
+        unit: Unit = Unit.METRIC,
+        coordinate: WorkOffset = WorkOffset.OFFSET_1,
+        controller_motion: PlannerControlMode = PlannerControlMode.CONTINUOUS,
+    ):
+        self.unit = unit
+        self.coordinate = coordinate
+        self.controller_motion = controller_motion
+        super().__init__()
+
     def __str__(self) -> str:
         return "\n".join(
             (
@@ -422,8 +437,8 @@ class SafetyBlock(ConfigCommand):
                     (
                         str(DistanceMode.ABSOLUTE),
                         # str(ArcDistanceMode.INCREMENTAL),
-                        str(WorkOffset.OFFSET_1),
-                        str(PlannerControlMode.CONTINUOUS),
+                        str(self.coordinate),
+                        str(self.controller_motion),
                         str(SpindleControlMode.MAX_SPINDLE_SPEED),
                         str(WorkPlane.XY),
                         str(FeedRateControlMode.UNITS_PER_MINUTE),
@@ -436,7 +451,7 @@ class SafetyBlock(ConfigCommand):
                         str(CannedCycle.CANCEL),
                     )
                 ),
-                str(Unit.METRIC),
+                str(self.unit),
                 str(Position.SECONDARY_HOME),
             )
         )
diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index c231444..11fbe50 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -273,15 +273,16 @@ class Job:
 
     def to_gcode(self):
         task_break = "\n\n\n"
+        safety_block = SafetyBlock(self.unit, self.coordinate, self.controller_motion)
         # The program starts with the speed of its first operation, later
         # changes are operations of their own
         start_speed = self.operations[0].job.speed if self.operations else self.speed
         return (
             f"({self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)})\n"
-            f"{SafetyBlock()}\n"
+            f"{safety_block}\n"
             f"{StartSequence(speed=start_speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
-            f"{SafetyBlock()}\n"
+            f"{safety_block}\n"
             f"{StopSequence(coolant=self.coolant)}\n"
             f"{ProgramControlMode.END_RESET}"
         )
-- 
2.43.0


From f13754f16281f53056ed5f16780f81a63def83b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 05/47] fix: drill at the hole centres in job coordinates

---
 src/cq_cam/operations/drill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/drill.py b/src/cq_cam/operations/drill.py
index f6afc99..033e9c6 100644
--- a/src/cq_cam/operations/drill.py
+++ b/src/cq_cam/operations/drill.py
@@ -24,7 +24,7 @@ class Drill(Operation):
     def __post_init__(self):
         # TODO max depth
         # TODO evacuate chips?
-        transform_f = self.job.top.toWorldCoords
+        transform_f = self.job.top.toLocalCoords
         drill_vectors: list[cq.Vector] = []
 
         if self.o is None:
-- 
2.43.0


From 7d0ca3e034842458d3c9f7613cad48215b865ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 06/47] fix: drill at the plunge feed

---
 src/cq_cam/operations/drill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/drill.py b/src/cq_cam/operations/drill.py
index 033e9c6..ef132ef 100644
--- a/src/cq_cam/operations/drill.py
+++ b/src/cq_cam/operations/drill.py
@@ -78,7 +78,7 @@ class Drill(Operation):
             previous_pos = ops[-1].end
             ops.append(Rapid.abs(z=0, start=previous_pos))
             previous_pos = ops[-1].end
-            ops.append(PlungeCut.abs(z=depth, feed=self.job.feed, start=previous_pos))
+            ops.append(PlungeCut.abs(z=depth, feed=self.job.plunge_feed, start=previous_pos))
             previous_pos = ops[-1].end
             cut_sequences.append(ops)
         cut_sequences = flatten_list(cut_sequences)
-- 
2.43.0


From 46fc7b3b58e87e40d7cbe7dd7041efdc47523e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 07/47] fix: undo the doubled location of offset circles using
 the source circle

---
 src/cq_cam/utils/circle_bug_workaround.py | 5 +++--
 src/cq_cam/utils/geometry_op.py           | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cq_cam/utils/circle_bug_workaround.py b/src/cq_cam/utils/circle_bug_workaround.py
index 9753c3a..2b33f0e 100644
--- a/src/cq_cam/utils/circle_bug_workaround.py
+++ b/src/cq_cam/utils/circle_bug_workaround.py
@@ -12,7 +12,8 @@ def circle_bug_workaround(source_wire: cq.Wire, target_wires: list[cq.Wire]):
     """
     if len(source_wire.Edges()) == 1:
         edge = source_wire.Edges()[0]
-        if edge.startPoint() == edge.endPoint():
+        if edge.geomType() == "CIRCLE" and edge.startPoint() == edge.endPoint():
             # OCCT bug with offsetting circles!
             for target in target_wires:
-                target.wrapped.Location(source_wire.wrapped.Location().Inverted())
+                # The offset applies the location of the edge twice
+                target.wrapped.Location(edge.wrapped.Location().Inverted())
diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index a7bf5ea..73abe5c 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -83,13 +83,13 @@ def offset_wire(
             return []
 
     validated_wires = []
-    for wire in offset_wires:
+    for offset_wire_ in offset_wires:
         try:
-            face = cq.Face.makeFromWires(wire)
+            face = cq.Face.makeFromWires(offset_wire_)
             # Todo arbitrary..
             # How should one detect whether offset is possible??
             if face.Area() > 0.1:
-                validated_wires.append(wire)
+                validated_wires.append(offset_wire_)
         except StdFail_NotDone:
             logger.warning("Failed to offset wire")
         except:
-- 
2.43.0


From 8476d9d58622bba4e384613c4430b5a8250eb109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 08/47] fix: route full circles as arcs whether or not the edge
 is flagged closed

---
 src/cq_cam/routers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 252e012..9fe0df4 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -162,7 +162,7 @@ def route_edge(
         # Actual circles are closed
         # CIRCLE geom type does not guarantee that the edge is a full circle!
         # TODO ARC's are not necessarily circular, so the gcode representation can be wrong!
-        if edge.Closed():
+        if edge.IsClosed():
             mid1_p, end1_p, mid2_p = np.linspace(start_p, end_p, 5)[1:-1]
             mid1 = AddressVector.from_vector(edge.positionAt(mid1_p, "parameter"))
             end1 = AddressVector.from_vector(edge.positionAt(end1_p, "parameter"))
-- 
2.43.0


From 1a41a4ddf5bf64628964478618baa768d4714c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 09/47] fix: route a wire entered by a rapid move from its
 start all the way around

---
 src/cq_cam/routers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 9fe0df4..665ed95 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -276,6 +276,8 @@ def route_wires(
                 Cut(AddressVector.from_vector(start), previous_pos, feed=job.feed)
             )
         else:
+            # The wire is entered at its start, not at the closest point
+            param = None
             # Create simple transition between toolpaths
             # TODO Implement Ramping (Horizontal/Vertical)
             # TODO Implement orientation (Climb/Conventional)
-- 
2.43.0


From 64897195a2efb67929dc2d1cb230ba5d0bf2468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 10/47] fix: link pocket contours directly only within the
 stepover

---
 src/cq_cam/routers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 665ed95..0922558 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -1,4 +1,4 @@
-from math import isclose
+from math import isclose, sqrt
 from typing import TYPE_CHECKING, Union
 
 import cadquery as cq
@@ -351,7 +351,12 @@ def route_polyface_outers(
             distance, closest_point, poly_position = None, None, None
 
         # Same comment applies here as in the same section in route_wires
-        if stepover and distance and distance <= stepover:
+        # (distance is squared and accurate to the output precision)
+        if (
+            stepover
+            and distance
+            and sqrt(distance) <= stepover + 10**-job.precision
+        ):
             # Determine the index of the edge, shift edges and use param?
             # edges = shift_edges(edges, target)
             index = poly_position[0]
@@ -362,6 +367,8 @@ def route_polyface_outers(
                 Cut.abs(start.x, start.y, polyface.depth, previous_pos, feed=job.feed)
             )
         else:
+            # The path is entered at its start, not at the closest point
+            closest_point = None
             # Create simple transition between toolpaths
             commands += rapid_to(
                 previous_pos,
-- 
2.43.0


From 04363beaa90b9d5514c2a39d0154e6b32adda968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 11/47] fix: overlapping areas, islands and avoid areas must
 not cancel each other out

---
 src/cq_cam/operations/pocket.py | 37 +++++++++++++--------------------
 src/cq_cam/utils/geometry_op.py |  8 +++++--
 2 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index 5cdcdb9..2e86d18 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -162,28 +162,21 @@ def build_pocket_ops(
         for sub_depth in depths[i + 1 :]:
             depth_faces += depth_map[sub_depth]
 
-        depth_ops = combine_outers(depth_faces, depth)
-        depth_inners = flatten_list(face.inners for face in depth_faces)
-
-        if avoid_depths:
-            active_avoid_depths = [
-                avoid_depth for avoid_depth in avoid_depths if avoid_depth >= depth
-            ]
-            avoid_faces = []
-            for avoid_depth in active_avoid_depths:
-                avoid_faces += avoid_depth_map[avoid_depth]
-            avoid_outers = [face.outer for face in avoid_faces]
-
-            # A limitation here is that avoids only work with the outer polygon
-            # Technically pyclipper does support multiple depths, so this could
-            # be investigated further
-            depth_ops_with_avoid = difference_poly_tree(
-                depth_ops, depth_inners + avoid_outers, depth
-            )
-            pocket_ops += depth_ops_with_avoid
-
-        else:
-            pocket_ops += difference_poly_tree(depth_ops, depth_inners, depth)
+        # The inners wind opposite to the outers, so that together they describe
+        # exactly the area covered by at least one of the faces
+        depth_paths = [face.outer for face in depth_faces]
+        depth_paths += flatten_list(face.inners for face in depth_faces)
+
+        # A limitation here is that avoids only work with the outer polygon
+        # Technically pyclipper does support multiple depths, so this could
+        # be investigated further
+        avoid_outers = [
+            face.outer
+            for avoid_depth in avoid_depths
+            if avoid_depth >= depth
+            for face in avoid_depth_map[avoid_depth]
+        ]
+        pocket_ops += difference_poly_tree(depth_paths, avoid_outers, depth)
 
     return pocket_ops
 
diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 73abe5c..6aefa3e 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -229,7 +229,10 @@ def boolean_op_path_list(
     subjects: list[Path], clips: list[Path], clip_type: int
 ) -> list[Path]:
     clipper = prepare_path_boolean_op(subjects, clips)
-    results = [pc.scale_from_clipper(result) for result in clipper.Execute(clip_type)]
+    results = [
+        pc.scale_from_clipper(result)
+        for result in clipper.Execute(clip_type, pc.PFT_NONZERO, pc.PFT_NONZERO)
+    ]
     return results
 
 
@@ -237,7 +240,8 @@ def boolean_op_poly_tree(
     subjects: list[Path], clips: list[Path], clip_type: int
 ) -> pc.PyPolyNode:
     clipper = prepare_path_boolean_op(subjects, clips)
-    results = clipper.Execute2(clip_type)
+    # Overlapping paths must add up and not cancel each other out
+    results = clipper.Execute2(clip_type, pc.PFT_NONZERO, pc.PFT_NONZERO)
     return results
 
 
-- 
2.43.0


From 385f911af83d6a5843aed0d7e152f9df85ae27ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 12/47] fix: pocket selected areas nested inside the islands of
 other areas

---
 src/cq_cam/utils/geometry_op.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 6aefa3e..dc05588 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -180,14 +180,15 @@ def close_path(path: OpenPath) -> ClosedPath:
 def poly_tree_to_poly_faces(poly_tree: pc.PyPolyNode, depth: float) -> list[PathFace]:
     polyfaces: list[PathFace] = []
     for face in poly_tree.Childs:
-        if face.depth > 1:
-            logger.warning("Deep face encountered in make_polyface")
         outer = tuplify_path(close_path(pc.scale_from_clipper(face.Contour)))
         inners = [
             tuplify_path(close_path(pc.scale_from_clipper(child.Contour)))
             for child in face.Childs
         ]
         polyfaces.append(PathFace(outer, inners, depth))
+        # Faces inside of the inners are nested below them in the tree
+        for child in face.Childs:
+            polyfaces += poly_tree_to_poly_faces(child, depth)
     return polyfaces
 
 
-- 
2.43.0


From 456ff881c22edb01ab6ede01d561f88d4087a3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 13/47] fix: profile layers must not depend on the position of
 the job plane

---
 src/cq_cam/fluent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 11fbe50..8edb686 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -72,7 +72,8 @@ class Job:
         coolant: CoolantState | None = None,
     ):
         self.top = top
-        self.top_plane_face = cq.Face.makePlane(None, None, top.origin, top.zDir)
+        # In job coordinates, like the toolpaths it is compared to
+        self.top_plane_face = cq.Face.makePlane(None, None)
         self.feed = feed
         self.speed = speed
         self.tool_diameter = tool_diameter
-- 
2.43.0


From ac8c4995a386f2b89b6c56b225d8b1ad0dcc4e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 14/47] fix: sort and merge tab ranges

---
 src/cq_cam/operations/tabs.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/operations/tabs.py b/src/cq_cam/operations/tabs.py
index 6c7ccf5..7847b67 100644
--- a/src/cq_cam/operations/tabs.py
+++ b/src/cq_cam/operations/tabs.py
@@ -12,6 +12,17 @@ class Transition(Enum):
     IGNORE = 2
 
 
+def merge_ranges(ranges):
+    """Sort ranges and merge the ones that overlap"""
+    merged = []
+    for start, end in sorted(ranges):
+        if merged and start <= merged[-1][1]:
+            merged[-1] = (merged[-1][0], max(merged[-1][1], end))
+        else:
+            merged.append((start, end))
+    return merged
+
+
 class Tabs:
     def __init__(self, *, width: float, height: float):
         self.width = width
@@ -60,8 +71,10 @@ class EdgeTabs(Tabs):
                 continue
 
             half_d = 1 / length * half
-            for d in np.linspace(0, 1, count + 2, endpoint=True)[1:-1]:
-                edge_ds.append((d - half_d, d + half_d))
+            edge_ds += merge_ranges(
+                (d - half_d, d + half_d)
+                for d in np.linspace(0, 1, count + 2, endpoint=True)[1:-1]
+            )
 
     def edge_tab_transitions(self, edge_index):
         edge_ds = self.edges_ds[edge_index]
@@ -99,7 +112,7 @@ class WireTabs(Tabs):
             if range[1] > 1:
                 wire_tab_ds.append((range[0] - 1, range[1] - 1))
 
-        self.wire_tab_ds = wire_tab_ds
+        self.wire_tab_ds = merge_ranges(wire_tab_ds)
 
     def load_ordered_edges(self, ordered_edges):
         edge_lengths = [edge.Length() for edge in ordered_edges]
-- 
2.43.0


From 8d0afeb4f7025bc19023139e690720555afa75e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 15/47] fix: place tabs of wires that have a location

---
 src/cq_cam/operations/profile.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index a18d16d..f76774a 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -119,7 +119,13 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
             )
             p1 = edge.paramAt(t_start_p)
             p2 = edge.paramAt(t_end_p)
-            curve = edge._geomAdaptor().Curve().Curve()
+            # The location of the edge doesn't affect the underlying curve
+            curve = (
+                edge._geomAdaptor()
+                .Curve()
+                .Curve()
+                .Transformed(edge.wrapped.Location().Transformation())
+            )
 
             if t_start[1] == Transition.TAB:
                 projected_curve = GeomProjLib.ProjectOnPlane_s(
@@ -155,9 +161,6 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
                 if e_reversed:
                     sliced_edge.wrapped.Orientation(TopAbs_REVERSED)
 
-                # The location of the edge needs to be copied because it doesn't
-                # affect the underlying curve..
-                sliced_edge.move(edge.location())
                 # Plunge
                 if previous_edge:
                     plunge = cq.Edge.makeLine(
-- 
2.43.0


From 9f20acfae0e43398661805b2f06718b13d7aa198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 16/47] fix: keep tabs that start or end exactly at the end of
 an edge

---
 src/cq_cam/operations/profile.py | 38 ++++++++++++++------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index f76774a..5e1ea6e 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -3,6 +3,7 @@ import logging
 from typing import TYPE_CHECKING
 
 import cadquery as cq
+from cadquery.occ_impl.shapes import TOLERANCE
 from OCP.BRepBuilderAPI import BRepBuilderAPI_MakeEdge
 from OCP.Geom import Geom_Plane
 from OCP.GeomProjLib import GeomProjLib
@@ -106,14 +107,26 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
     tabs.load_ordered_edges(edges)
 
     new_edges = []
+
+    def add_edge(new_edge: cq.Edge):
+        # Retract to or plunge from a tab
+        if new_edges:
+            end, start = edge_end_point(new_edges[-1]), edge_start_point(new_edge)
+            if end != start:
+                new_edges.append(cq.Edge.makeLine(end, start))
+        new_edges.append(new_edge)
+
     for i, edge in enumerate(edges):
         transitions = tabs.edge_tab_transitions(i)
         if all(t[1] == Transition.NORMAL for t in transitions):
-            new_edges.append(edge)
+            add_edge(edge)
             continue
 
-        previous_edge = None
         for t_start, t_end in zip(transitions, transitions[1:]):
+            # A tab may start or end exactly at the end of an edge
+            if (t_end[0] - t_start[0]) * edge.Length() < TOLERANCE:
+                continue
+
             t_start_p, t_end_p, e_reversed = edge_oriented_param(
                 edge, t_start[0], t_end[0]
             )
@@ -144,16 +157,7 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
                 if e_reversed:
                     projected_edge.wrapped.Orientation(TopAbs_REVERSED)
 
-                if previous_edge:
-                    # Retract
-                    # retract = cq.Edge.makeLine(edge_end_point(previous_edge), edge_start_point(projected_edge))
-                    retract = cq.Edge.makeLine(
-                        edge_end_point(previous_edge), edge_start_point(projected_edge)
-                    )
-                    new_edges.append(retract)
-
-                previous_edge = projected_edge
-                new_edges.append(projected_edge)
+                add_edge(projected_edge)
             else:
                 sliced_edge = cq.Edge(BRepBuilderAPI_MakeEdge(curve, p1, p2).Edge())
 
@@ -161,15 +165,7 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
                 if e_reversed:
                     sliced_edge.wrapped.Orientation(TopAbs_REVERSED)
 
-                # Plunge
-                if previous_edge:
-                    plunge = cq.Edge.makeLine(
-                        edge_end_point(previous_edge), edge_start_point(sliced_edge)
-                    )
-                    new_edges.append(plunge)
-
-                previous_edge = sliced_edge
-                new_edges.append(sliced_edge)
+                add_edge(sliced_edge)
 
     global TAB_ERRORS
     try:
-- 
2.43.0


From a68d24b7e20a55bddab1ccb6eb95d6c9e67708d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 17/47] fix: show arcs in the preview

---
 src/cq_cam/command.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/command.py b/src/cq_cam/command.py
index 40dec76..8ac2255 100644
--- a/src/cq_cam/command.py
+++ b/src/cq_cam/command.py
@@ -335,8 +335,9 @@ class Circular(FeedRateCommand, ABC):
         return " ".join(words)
 
     def to_ais_shape(self, as_edges=False, alt_color=False) -> AIS_Shape:
-        end = self.end.to_vector(self.start)
-        mid = self.mid.to_vector(self.start)
+        start = self.start.to_vector(cq.Vector(0, 0, 0))
+        end = self.end.to_vector(start)
+        mid = self.mid.to_vector(start)
 
         # Note: precision of __eq__ on vectors can cause false positive circles with very small arcs
         # TODO: Neutralise small arcs, these can cause similar problem with grbl as far as I remember
@@ -348,10 +349,10 @@ class Circular(FeedRateCommand, ABC):
         #    edge = cq.Edge.makeCircle(radius, center, cq.Vector(0,0,1))
         # else:
         try:
-            edge = cq.Edge.makeThreePointArc(self.start, mid, end)
+            edge = cq.Edge.makeThreePointArc(start, mid, end)
         except:
             try:
-                edge = cq.Edge.makeLine(self.start, end)
+                edge = cq.Edge.makeLine(start, end)
             except:
                 # Too small to render ?
                 return None
-- 
2.43.0


From 68cd25868935328dc8d20b8b67278effcb2e0a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 18/47] fix: do not turn tiny arcs into full circles

An arc whose ends are printed as the same position is a full circle in
gcode. Cut tiny arcs straight and split almost closed ones.
---
 src/cq_cam/routers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 0922558..ce09f18 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -1,4 +1,4 @@
-from math import isclose, sqrt
+from math import isclose, pi, sqrt
 from typing import TYPE_CHECKING, Union
 
 import cadquery as cq
@@ -6,7 +6,7 @@ import numpy as np
 from OCP.BRepExtrema import BRepExtrema_DistShapeShape, BRepExtrema_SupportType
 from OCP.TopAbs import TopAbs_REVERSED
 
-from cq_cam.address import AddressVector
+from cq_cam.address import XYZ, AddressVector
 from cq_cam.command import (
     CircularCCW,
     CircularCW,
@@ -162,7 +162,10 @@ def route_edge(
         # Actual circles are closed
         # CIRCLE geom type does not guarantee that the edge is a full circle!
         # TODO ARC's are not necessarily circular, so the gcode representation can be wrong!
-        if edge.IsClosed():
+        # An arc that starts and ends at the same printed position is a full circle
+        # in gcode, so almost closed arcs are split and tiny arcs are cut straight
+        same_position = sp == ep or str(XYZ(start_cv)) == str(XYZ(end_cv))
+        if edge.IsClosed() or (same_position and abs(end_p - start_p) > pi):
             mid1_p, end1_p, mid2_p = np.linspace(start_p, end_p, 5)[1:-1]
             mid1 = AddressVector.from_vector(edge.positionAt(mid1_p, "parameter"))
             end1 = AddressVector.from_vector(edge.positionAt(end1_p, "parameter"))
@@ -189,7 +192,7 @@ def route_edge(
                     arrow=arrow,
                 )
             )
-        elif sp == ep:
+        elif same_position:
             # Really tiny arc, might as well just cut it straight
             # TODO verify the sanity
             commands.append(Cut(end=end_cv, start=start_cv, arrow=arrow, feed=feed))
-- 
2.43.0


From 93151acf7c8ea39327bc76332dbc5be951e58cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 19/47] fix: keep job names from breaking out of gcode comments

---
 src/cq_cam/fluent.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 8edb686..813bbab 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -28,6 +28,12 @@ from cq_cam.visualize import visualize_job, visualize_job_as_edges
 logger = logging.getLogger(__name__)
 
 
+def gcode_comment(text: str) -> str:
+    """A comment can't contain parentheses or span multiple lines"""
+    text = text.replace("(", "[").replace(")", "]")
+    return f"({' '.join(text.split())})"
+
+
 class Operation:
     def __init__(self, job: Job, name: str, commands: list[Command]):
         self.job = job
@@ -37,7 +43,7 @@ class Operation:
     def to_gcode(self):
         # Set starting position above rapid height so that
         # we guarantee getting the correct Z rapid in the beginning
-        gcodes = [f"({self.job.name} - {self.name})"]
+        gcodes = [gcode_comment(f"{self.job.name} - {self.name}")]
         for command in self.commands:
             gcode = str(command)
 
@@ -278,8 +284,9 @@ class Job:
         # The program starts with the speed of its first operation, later
         # changes are operations of their own
         start_speed = self.operations[0].job.speed if self.operations else self.speed
+        header = f"{self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)}"
         return (
-            f"({self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)})\n"
+            f"{gcode_comment(header)}\n"
             f"{safety_block}\n"
             f"{StartSequence(speed=start_speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
-- 
2.43.0


From 489a252db38c79ad1cb943a4e283a8a23256d507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 20/47] fix: accept the tool diameter of the tool given to a
 profile

---
 src/cq_cam/fluent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 813bbab..861f478 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -162,14 +162,14 @@ class Job:
         tabs: Tabs | None = None,
         tool: Tool | None = None,
     ) -> Job:
-        if self.tool_diameter is None:
-            raise ValueError("Profile requires tool_diameter to be set")
-
         if outer_offset is None and inner_offset is None:
             raise ValueError('Set at least one of "outer_offset" or "inner_offset"')
         outer_wires, inner_wires = extract_wires(shape)
 
         self = self.update_tool(tool)
+        if self.tool_diameter is None:
+            raise ValueError("Profile requires tool_diameter to be set")
+
         # Prefer inner wires first
         commands = []
         if inner_wires and inner_offset is not None:
-- 
2.43.0


From d1b88a995721d42fa9d7e808c7ba9f752eae3d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 21/47] fix: offset circles to the requested side whatever
 their size and orientation

OCCT offsets some reversed circles (like the bottom of a hole) to the
wrong side and can't offset circles of radius 1 or less inwards.
---
 src/cq_cam/utils/geometry_op.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index dc05588..e9a872d 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -8,11 +8,15 @@ from typing import Literal, TypeAlias
 import cadquery as cq
 import pyclipper as pc
 import shapely
+from OCP.BRepBuilderAPI import BRepBuilderAPI_MakeEdge
 from OCP.StdFail import StdFail_NotDone
 
-from cq_cam.utils.circle_bug_workaround import circle_bug_workaround
 from cq_cam.utils.interpolation import vectors_to_2d_tuples, wire_to_vectors
-from cq_cam.utils.utils import dist_to_segment_squared, flatten_list
+from cq_cam.utils.utils import (
+    dist_to_segment_squared,
+    flatten_list,
+    wire_to_ordered_edges,
+)
 
 logger = logging.getLogger(__name__)
 OffsetToolRadiusMultiplier: TypeAlias = float
@@ -68,9 +72,31 @@ def calculate_offset(tool_radius: float, offset: OffsetInput | None, default=Non
         return tool_radius * offset
 
 
+def offset_circle(edge: cq.Edge, offset: float) -> list[cq.Wire]:
+    """
+    OCCT offsets some circles to the wrong side or location and fails to offset
+    small circles inwards, but an offset circle is just another circle.
+    """
+    circle = edge._geomAdaptor().Circle()
+    radius = circle.Radius() + offset
+    if radius <= 0:
+        return []
+
+    circle.SetRadius(radius)
+    offset_edge = BRepBuilderAPI_MakeEdge(circle).Edge()
+    offset_edge.Orientation(edge.wrapped.Orientation())
+    return [cq.Wire.assembleEdges([cq.Edge(offset_edge)])]
+
+
 def offset_wire(
     wire: cq.Wire, offset, kind: Literal["arc", "intersection", "tangent"] = "arc"
 ) -> list[cq.Wire]:
+    edges = wire_to_ordered_edges(wire)
+    if len(edges) == 1:
+        edge = edges[0]
+        if edge.geomType() == "CIRCLE" and edge.startPoint() == edge.endPoint():
+            return offset_circle(edge, offset)
+
     try:
         offset_wires = wire.offset2D(offset, kind)
     except ValueError:
@@ -95,7 +121,6 @@ def offset_wire(
         except:
             logger.error("NOT PLANAR!")
 
-    circle_bug_workaround(wire, validated_wires)
     return validated_wires
 
 
-- 
2.43.0


From c12724fb55efe03b8d4fb029fcfcf20842d36897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:37 +0000
Subject: [PATCH 22/47] fix: do not drop profiles of small features

Offset outlines smaller than 0.1 square units were silently not cut.
---
 src/cq_cam/utils/geometry_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index e9a872d..31b563f 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -114,7 +114,7 @@ def offset_wire(
             face = cq.Face.makeFromWires(offset_wire_)
             # Todo arbitrary..
             # How should one detect whether offset is possible??
-            if face.Area() > 0.1:
+            if face.Area() > 1e-6:
                 validated_wires.append(offset_wire_)
         except StdFail_NotDone:
             logger.warning("Failed to offset wire")
-- 
2.43.0


From d829ab88a6a7497b6f5eccd30a21713eb39fba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 23/47] fix: plunge from tabs with the plunge feed

---
 src/cq_cam/routers.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index ce09f18..3e08ef0 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -96,6 +96,17 @@ def vertical_edge(edge: cq.Edge):
     return p1.x == p2.x and p1.y == p2.y
 
 
+def is_plunge(edge: cq.Edge):
+    """Straight down, for example after a tab"""
+    p1 = edge_start_point(edge)
+    p2 = edge_end_point(edge)
+    return (
+        edge.geomType() == "LINE"
+        and p1.z > p2.z
+        and cq.Vector(p1.x, p1.y, 0) == cq.Vector(p2.x, p2.y, 0)
+    )
+
+
 def distance_to_wire(v: cq.Vector, wire2: cq.Wire):
     vx = cq.Vertex.makeVertex(*v.toTuple())
     extrema = BRepExtrema_DistShapeShape(vx.wrapped, wire2.wrapped)
@@ -308,7 +319,8 @@ def route_wires(
                     previous_pos = new_commands[-1].end
                     commands += new_commands
             else:
-                new_commands, end = route_edge(edge, job.precision, feed=job.feed)
+                feed = job.plunge_feed if is_plunge(edge) else job.feed
+                new_commands, end = route_edge(edge, job.precision, feed=feed)
                 previous_pos = new_commands[-1].end
                 commands += new_commands
         if param:
-- 
2.43.0


From 0cd6b132b889a6083c0b47156eeaded564a4afa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 24/47] fix: areas on the job plane or at equal depths must not
 depend on rounding errors

---
 src/cq_cam/utils/geometry_op.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 31b563f..2fdaf74 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -43,13 +43,14 @@ class PathFace:
     @classmethod
     def from_cq_face(cls, cq_face: cq.Face, precision: int):
         bbox = cq_face.BoundingBox()
-        if round(bbox.zmin, 3) != round(bbox.zmax, 3):
+        if bbox.zmax - bbox.zmin > 0.001:
             raise ValueError("PolyFace supports only flat faces")
 
         return cls(
             wire_to_path(cq_face.outerWire(), precision),
             [wire_to_path(wire, precision) for wire in cq_face.innerWires()],
-            bbox.zmax,
+            # Faces at the same depth may differ by a rounding error
+            round(bbox.zmax, 6),
         )
 
     def clone_to_depth(self, depth: float):
-- 
2.43.0


From afeae745ef854c894d10ce4a99bd1250339e2551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 25/47] fix: skip pocket areas too small for the tool whether
 or not they have islands

---
 src/cq_cam/utils/geometry_op.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 2fdaf74..a862c44 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -228,7 +228,8 @@ def offset_polyface(
     polyface: PathFace, outer_offset: float, inner_offset: float, precision: int
 ) -> list[PathFace]:
     outers = offset_path(polyface.outer, outer_offset, precision)
-    if polyface.inners:
+    # The tool may not fit into the face at all
+    if outers and polyface.inners:
         inners = flatten_list(
             [offset_path(inner, inner_offset, precision) for inner in polyface.inners]
         )
-- 
2.43.0


From 4631c99be9db2f6416e27725bedac2af31ce9406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 26/47] fix: round pockets must not degenerate to polygons with
 a few corners

---
 src/cq_cam/utils/geometry_op.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index a862c44..eb6b78a 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -47,8 +47,11 @@ class PathFace:
             raise ValueError("PolyFace supports only flat faces")
 
         return cls(
-            wire_to_path(cq_face.outerWire(), precision),
-            [wire_to_path(wire, precision) for wire in cq_face.innerWires()],
+            simplify_path(wire_to_path(cq_face.outerWire(), precision), precision),
+            [
+                simplify_path(wire_to_path(wire, precision), precision)
+                for wire in cq_face.innerWires()
+            ],
             # Faces at the same depth may differ by a rounding error
             round(bbox.zmax, 6),
         )
@@ -165,6 +168,12 @@ def wire_to_path(wire: cq.Wire, precision: int) -> Path:
     return vectors_to_2d_tuples(wire_to_vectors(wire, precision))
 
 
+def simplify_path(path: Path, precision: int) -> Path:
+    """Clipper's CleanPolygons eats most of a curve if its points are too dense"""
+    simplified = shapely.LineString(path).simplify(10**-precision / 2)
+    return [tuple(point) for point in simplified.coords]
+
+
 def path_to_wire(path: Path, reference: cq.Wire | float) -> cq.Wire:
     if isinstance(reference, cq.Wire):
         z = reference.startPoint().z
-- 
2.43.0


From 0aad63065407d41c20d73211ec874f7d81df8ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 27/47] fix: cut arcs shorter than the printed precision
 straight

---
 src/cq_cam/routers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 3e08ef0..bcd4328 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -203,7 +203,7 @@ def route_edge(
                     arrow=arrow,
                 )
             )
-        elif same_position:
+        elif same_position or edge.radius() * abs(end_p - start_p) < 0.001:
             # Really tiny arc, might as well just cut it straight
             # TODO verify the sanity
             commands.append(Cut(end=end_cv, start=start_cv, arrow=arrow, feed=feed))
-- 
2.43.0


From 7b3d9a4ec00f3c48dca452abffe55b990fbf43f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 28/47] fix: descend to the start of toolpaths above the safe
 height

---
 src/cq_cam/routers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index bcd4328..6cf4690 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -81,6 +81,8 @@ def rapid_to(
             PlungeCut.abs(z=end.z, start=start, arrow=True, feed=plunge_feed)
         )
     else:
+        # A toolpath may start above it, for example on a high tab
+        safe_plunge_height = max(safe_plunge_height, end.z)
         commands.append(PlungeRapid.abs(z=safe_plunge_height, start=start, arrow=True))
         start = commands[-1].end
         if safe_plunge_height > end.z:
-- 
2.43.0


From ebe94f0527f65411b4908c42338b639d97e94bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:46 +0000
Subject: [PATCH 29/47] fix: pocketing areas whose outline touches itself must
 not crash

---
 src/cq_cam/utils/geometry_op.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index eb6b78a..792e6bf 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -61,7 +61,8 @@ class PathFace:
 
     @cached_property
     def polygon(self) -> shapely.Polygon:
-        return shapely.Polygon(shell=self.outer, holes=self.inners)
+        # The outline may touch itself, which is valid only after buffering
+        return shapely.Polygon(shell=self.outer, holes=self.inners).buffer(0)
 
 
 def calculate_offset(tool_radius: float, offset: OffsetInput | None, default=None):
-- 
2.43.0


From 0be58b871fd63c69f615a6298fd8b550c21ac581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:29 +0000
Subject: [PATCH 30/47] fix: do not link pocket contours across small islands

---
 src/cq_cam/operations/pocket.py |  7 +++++--
 src/cq_cam/routers.py           | 13 +++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index 2e86d18..ecd722d 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -184,7 +184,7 @@ def build_pocket_ops(
 def fill_pocket_contour_shrink(
     pocket: PathFace, step: float, precision: int
 ) -> list[list[PathFace]]:
-    tree = Tree(PathFace(pocket.outer, [], depth=pocket.depth))
+    tree = Tree(pocket)
     i = 0
 
     # TODO sanify the variable names here
@@ -204,7 +204,10 @@ def fill_pocket_contour_shrink(
 
             if next_outers:
                 node.branch(
-                    [PathFace(outer, [], pocket.depth) for outer in next_outers]
+                    [
+                        PathFace(outer, pocket.inners, pocket.depth)
+                        for outer in next_outers
+                    ]
                 )
             else:
                 node.lock()
diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 6cf4690..589a153 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -5,6 +5,7 @@ import cadquery as cq
 import numpy as np
 from OCP.BRepExtrema import BRepExtrema_DistShapeShape, BRepExtrema_SupportType
 from OCP.TopAbs import TopAbs_REVERSED
+from shapely import LineString, Polygon
 
 from cq_cam.address import XYZ, AddressVector
 from cq_cam.command import (
@@ -342,6 +343,15 @@ def shift_polygon(polygon: Path, i: int):
     return polygon
 
 
+def crosses_inners(start, end, polyface: PathFace, precision: int) -> bool:
+    """Small islands may lie between two contours"""
+    link = LineString([start, end])
+    return any(
+        Polygon(inner).buffer(-(10**-precision)).intersects(link)
+        for inner in polyface.inners
+    )
+
+
 def route_polyface_outers(
     job: "Job",
     polyfaces: list[PathFace],
@@ -373,6 +383,9 @@ def route_polyface_outers(
             stepover
             and distance
             and sqrt(distance) <= stepover + 10**-job.precision
+            and not crosses_inners(
+                previous_wire_end, closest_point, polyface, job.precision
+            )
         ):
             # Determine the index of the edge, shift edges and use param?
             # edges = shift_edges(edges, target)
-- 
2.43.0


From 93c0a7c7f6540dbb451e7f6be2cc182c84dc2411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 31/47] fix: flatten reversed arcs in the direction of their
 wire

---
 src/cq_cam/utils/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/utils/utils.py b/src/cq_cam/utils/utils.py
index b2e6dd4..b82747f 100644
--- a/src/cq_cam/utils/utils.py
+++ b/src/cq_cam/utils/utils.py
@@ -68,8 +68,11 @@ def drop_z(vector: cq.Vector) -> tuple[float, float]:
 
 
 def position_space(edge: cq.Edge, tolerance=0.1):
-    # TODO orientation check
-    return np.linspace(0, 1, math.ceil(edge.Length() / tolerance))
+    # Even the shortest edge has a start and an end
+    positions = np.linspace(0, 1, max(2, math.ceil(edge.Length() / tolerance)))
+    if edge.wrapped.Orientation() == TopAbs_REVERSED:
+        return 1 - positions
+    return positions
 
 
 def flatten_edges(edges: list[cq.Edge]):
@@ -84,7 +87,6 @@ def flatten_edges(edges: list[cq.Edge]):
             # TODO tmp
         elif edge.geomType() in ["ARC", "CIRCLE", "OFFSET"]:
             # TODO handle full circles
-            # TODO make sure position_space ends up returning something (really tiny arcs?)
             positions = edge.positions(position_space(edge)[1:])
             vxs += positions
         else:
-- 
2.43.0


From 33c1f82145984b62bd72911b54c81f2b8c3a0f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 32/47] fix: polygons of closed wires must be closed

---
 src/cq_cam/utils/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/utils/utils.py b/src/cq_cam/utils/utils.py
index b82747f..916677e 100644
--- a/src/cq_cam/utils/utils.py
+++ b/src/cq_cam/utils/utils.py
@@ -188,9 +188,11 @@ class WireClipper:
 
     def _add_wire(self, wire: cq.Wire, pt, cache, is_closed):
         polygon = [drop_z(v) for v in flatten_wire(wire)]
-        # Not sure if i'll shoot myself in the leg with this
-        if not is_closed:
+        # A flattened wire lacks its start point
+        if is_closed:
             polygon.append(polygon[0])
+        else:
+            polygon.insert(0, drop_z(wire.startPoint()))
         self._add_path(pyclipper.scale_to_clipper(polygon), pt, is_closed, cache)
         return polygon
 
-- 
2.43.0


From c5505e128829ed26d7cd2af2b015ede62358994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 33/47] fix: link points of the closing segment in order

---
 src/cq_cam/utils/linked_polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/linked_polygon.py b/src/cq_cam/utils/linked_polygon.py
index 42f2642..f850c87 100644
--- a/src/cq_cam/utils/linked_polygon.py
+++ b/src/cq_cam/utils/linked_polygon.py
@@ -19,7 +19,8 @@ class LinkedPolygon:
 
         i = self.polygon.index(segment_start)
         i_1 = i + 1
-        j = self.polygon.index(segment_end)
+        # The polygon is closed, so its last point is also its first point
+        j = self.polygon.index(segment_end, i_1)
 
         if i_1 == j:
             self.polygon.insert(i_1, point)
-- 
2.43.0


From 8ec2ddf861e7952f8227b982f053863173e1d275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 34/47] fix: drop the start of every zig-zag sequence from its
 boundary

---
 src/cq_cam/operations/strategy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cq_cam/operations/strategy.py b/src/cq_cam/operations/strategy.py
index f6c9a54..a680d16 100644
--- a/src/cq_cam/operations/strategy.py
+++ b/src/cq_cam/operations/strategy.py
@@ -180,6 +180,7 @@ class ZigZagStrategy(Strategy):
                 cut_sequences.append(cut_sequence)
                 # TODO some optimization potential in picking the nearest scanpoint
                 start_position, cut_position = scanlines.pop(0)
+                scanpoint_to_linked_polygon[start_position].drop(start_position)
                 # TODO some optimization potential in picking a direction
                 cut_sequence = [start_position, cut_position]
                 continue
-- 
2.43.0


From 283565b382065eeaeed5a3b8d40cf861b41053c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 35/47] fix: scanlines that touch a corner are one scanline

---
 src/cq_cam/operations/strategy.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/strategy.py b/src/cq_cam/operations/strategy.py
index a680d16..2133534 100644
--- a/src/cq_cam/operations/strategy.py
+++ b/src/cq_cam/operations/strategy.py
@@ -94,7 +94,7 @@ class ZigZagStrategy(Strategy):
         for scanline_template in scanline_templates:
             clipper.add_subject_polygon(scanline_template)
 
-        scanlines = clipper.execute()
+        scanlines = cls._merge_scanlines(clipper.execute())
 
         scanpoint_to_scanline, scanpoints = cls._scanline_end_map(scanlines)
 
@@ -113,6 +113,16 @@ class ZigZagStrategy(Strategy):
         )
         return cut_sequences
 
+    @staticmethod
+    def _merge_scanlines(scanlines):
+        """A scanline that only touches a corner of a boundary is clipped in two there"""
+        ends = {}
+        for start, end in scanlines:
+            start, end = ends.pop(start, start), ends.pop(end, end)
+            ends[start] = end
+            ends[end] = start
+        return [(start, end) for start, end in ends.items() if start < end]
+
     @staticmethod
     def _scanline_end_map(scanlines: list[Scanline]):
         scanline_end_map = {}
-- 
2.43.0


From 8679ca9866b3e6dd38c31ba3df827f2646fc9f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 36/47] fix: zig-zag regions between the scanlines have no
 sequences

---
 src/cq_cam/operations/strategy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cq_cam/operations/strategy.py b/src/cq_cam/operations/strategy.py
index 2133534..5b0dc70 100644
--- a/src/cq_cam/operations/strategy.py
+++ b/src/cq_cam/operations/strategy.py
@@ -95,6 +95,9 @@ class ZigZagStrategy(Strategy):
             clipper.add_subject_polygon(scanline_template)
 
         scanlines = cls._merge_scanlines(clipper.execute())
+        # Small boundaries may lie between the scanlines
+        if not scanlines:
+            return []
 
         scanpoint_to_scanline, scanpoints = cls._scanline_end_map(scanlines)
 
-- 
2.43.0


From 0a83e4d396eb58ed431817d166d2c295f9146adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 37/47] fix: profiles of several wires know where the previous
 wire ended

---
 src/cq_cam/fluent.py             | 3 +++
 src/cq_cam/operations/profile.py | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 861f478..21d4120 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -180,6 +180,7 @@ class Job:
                     offset=inner_offset,
                     stepdown=stepdown,
                     tabs=tabs,
+                    previous_pos=commands[-1].end if commands else None,
                 )
 
         if outer_wires and outer_offset is not None:
@@ -190,6 +191,7 @@ class Job:
                     offset=outer_offset,
                     stepdown=stepdown,
                     tabs=tabs,
+                    previous_pos=commands[-1].end if commands else None,
                 )
 
         return self._add_operation("Profile", commands)
@@ -214,6 +216,7 @@ class Job:
                 offset=offset,
                 stepdown=stepdown,
                 tabs=tabs,
+                previous_pos=commands[-1].end if commands else None,
             )
         return self._add_operation("Wire Profile", commands)
 
diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index 5e1ea6e..ad974e1 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -34,6 +34,7 @@ def profile(
     offset: float,
     stepdown: int | None = None,
     tabs: Tabs | None = None,
+    previous_pos: AddressVector | None = None,
 ):
     """
     A 2.5D profile operation
@@ -43,6 +44,7 @@ def profile(
     :param offset: Multiplier for tool radius
     :param stepdown:
     :param tabs:
+    :param previous_pos: Where the tool is before the operation, if known
     :return:
     """
     # Transform to relative coordinates
@@ -85,7 +87,7 @@ def profile(
 
         toolpaths += layers
 
-    commands = route_wires(job, toolpaths)
+    commands = route_wires(job, toolpaths, previous_pos=previous_pos)
     return commands
 
 
-- 
2.43.0


From af7af4bedc948bf745315eaf19267b0b6ae12479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 38/47] fix: tabs of edges as long as a multiple of the spacing
 depended on rounding errors

---
 src/cq_cam/operations/tabs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/tabs.py b/src/cq_cam/operations/tabs.py
index 7847b67..a8ca1c3 100644
--- a/src/cq_cam/operations/tabs.py
+++ b/src/cq_cam/operations/tabs.py
@@ -66,7 +66,8 @@ class EdgeTabs(Tabs):
             if self.only:
                 if geom_type != self.only:
                     continue
-            count = int(length // self.spacing)
+            # An edge as long as the spacing holds a tab wherever it lies
+            count = int(length / self.spacing + 1e-6)
             if count <= 0:
                 continue
 
-- 
2.43.0


From 65136a32df3e398abb3cdc5b7a6d7c88c55407bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:21 +0000
Subject: [PATCH 39/47] fix: connect tabs on splines with their neighbours

---
 src/cq_cam/operations/profile.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index ad974e1..f39eb98 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -7,7 +7,8 @@ from cadquery.occ_impl.shapes import TOLERANCE
 from OCP.BRepBuilderAPI import BRepBuilderAPI_MakeEdge
 from OCP.Geom import Geom_Plane
 from OCP.GeomProjLib import GeomProjLib
-from OCP.TopAbs import TopAbs_REVERSED
+from OCP.ShapeFix import ShapeFix_ShapeTolerance
+from OCP.TopAbs import TopAbs_REVERSED, TopAbs_VERTEX
 
 from cq_cam.address import AddressVector
 from cq_cam.operations.tabs import Tabs, Transition
@@ -153,6 +154,11 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
                     BRepBuilderAPI_MakeEdge(projected_curve, p1, p2).Edge()
                 )
 
+                # The projection of a curve is an approximation, yet has to connect
+                ShapeFix_ShapeTolerance().SetTolerance(
+                    projected_edge.wrapped, 10 * TOLERANCE, TopAbs_VERTEX
+                )
+
                 # Flip the orientation if the original edge was also reversed
                 # Note: trying to create edge with p2, p1 instead doesn't work as BRepBuilderAPI will
                 # automatically add REVERSED orientation
-- 
2.43.0


From 50264dc6601698df4621a297669ba149b80bc225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 40/47] fix: surface the faces where they are located

---
 src/cq_cam/operations/op3d.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index 5b9b097..869dbd3 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -197,8 +197,12 @@ class Surface3D(FaceBaseOperation):
             triangulation = brep_tool.Triangulation_s(shape.wrapped, location)
             for i in range(triangulation.NbTriangles()):
                 triangle = triangulation.Triangle(i + 1)
+                # The triangulation does not include the location of the face
                 face_triangles = tuple(
-                    point_to_tuple(triangulation.Node(node)) for node in triangle.Get()
+                    point_to_tuple(
+                        triangulation.Node(node).Transformed(location.Transformation())
+                    )
+                    for node in triangle.Get()
                 )
                 triangles.append(face_triangles)
 
@@ -244,8 +248,12 @@ def shape_to_triangles(
         triangulation = brep_tool.Triangulation_s(shape.wrapped, location)
         for i in range(triangulation.NbTriangles()):
             triangle = triangulation.Triangle(i + 1)
+            # The triangulation does not include the location of the face
             face_triangles = tuple(
-                point_to_tuple(triangulation.Node(node)) for node in triangle.Get()
+                point_to_tuple(
+                    triangulation.Node(node).Transformed(location.Transformation())
+                )
+                for node in triangle.Get()
             )
             triangles.append(face_triangles)
 
-- 
2.43.0


From 159f062a35b8ee04a3bd130cdb9a13d4e160b55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:38 +0000
Subject: [PATCH 41/47] fix: cut the first point of surfacing sequences

---
 src/cq_cam/operations/op3d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index 869dbd3..af7e242 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -150,7 +150,9 @@ class Surface3D(FaceBaseOperation):
                     # self.commands.append(PlungeCut.abs(
                     #     z=cut_start[2], start=previous_pos))
                     # previous_pos = self.commands[-1].end
-                    for cut in cut_sequence[1:]:
+                    # The first point may be repeated
+                    repeated = cut_sequence[1:2] == [cut_start]
+                    for cut in cut_sequence[1:] if repeated else cut_sequence:
                         self.commands.append(
                             Cut.abs(
                                 x=cut[0],
-- 
2.43.0


From becd4bc1abf29aaf97280d98789ec04a330199e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:17 +0000
Subject: [PATCH 42/47] fix: surfaces at the height of the job plane must not
 depend on rounding errors

---
 src/cq_cam/operations/op3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index af7e242..019fd7a 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -220,7 +220,8 @@ class Surface3D(FaceBaseOperation):
         for sequence in sequences:
             new_sequence = []
             for point in sequence:
-                if point[2] > last_depth:
+                # Points at the depth must not depend on rounding errors
+                if point[2] > last_depth + 1e-6:
                     if new_sequence:
                         new_sequences.append(new_sequence)
                         new_sequence = []
-- 
2.43.0


From 2e8ad2e5fffdb2a7dff3200a4d0da177add1daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:23 +0000
Subject: [PATCH 43/47] fix: surfaces above the first stepdown have a single
 pass

---
 src/cq_cam/operations/op3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index 019fd7a..7597f89 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -118,7 +118,7 @@ class Surface3D(FaceBaseOperation):
                         self.top_height + self.stepdown, bottom_height, self.stepdown
                     )
                 )
-                if depths[-1] != bottom_height:
+                if not depths or depths[-1] != bottom_height:
                     depths.append(bottom_height)
             else:
                 depths = [bottom_height]
-- 
2.43.0


From 0a9eb1da1c1af2445c555b516732504dc0bb8ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:27 +0000
Subject: [PATCH 44/47] fix: surfacing sequences may repeat points

---
 src/cq_cam/operations/op3d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index 7597f89..ab41fb7 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -66,6 +66,8 @@ class Surface3D(FaceBaseOperation):
                 for p2 in cut_sequence[1:]:
                     v2 = cq.Vector(p2)
                     v = v2 - v1
+                    if v.Length == 0:
+                        continue
                     u = v.normalized()
                     l = v.Length
                     for step in np.arange(0, l, self.interpolation_step):
-- 
2.43.0


From 11a5d622fe55cee0bcef9ada49f6a7e2f9d2e763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 45/47] fix: surface in steps whatever the sign of the stepdown

---
 src/cq_cam/operations/op3d.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index ab41fb7..30c5e48 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -115,10 +115,9 @@ class Surface3D(FaceBaseOperation):
 
             bottom_height = bb.zmin
             if self.stepdown:
+                stepdown = -abs(self.stepdown)
                 depths = list(
-                    np.arange(
-                        self.top_height + self.stepdown, bottom_height, self.stepdown
-                    )
+                    np.arange(self.top_height + stepdown, bottom_height, stepdown)
                 )
                 if not depths or depths[-1] != bottom_height:
                     depths.append(bottom_height)
-- 
2.43.0


From 703f025b00e36136eff15c823af316b9d747e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:30 +0000
Subject: [PATCH 46/47] fix: offset circular surfacing regions

---
 src/cq_cam/operations/base_operation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/operations/base_operation.py b/src/cq_cam/operations/base_operation.py
index b8a7c36..6db93fd 100644
--- a/src/cq_cam/operations/base_operation.py
+++ b/src/cq_cam/operations/base_operation.py
@@ -8,6 +8,7 @@ from OCP.TopAbs import TopAbs_FACE
 from OCP.TopExp import TopExp_Explorer
 
 from cq_cam.command import MotionCommand
+from cq_cam.utils.geometry_op import offset_wire
 from cq_cam.utils.utils import flatten_list
 
 
@@ -185,12 +186,12 @@ class FaceBaseOperation(Operation, ABC):
             + self.inner_boundary_offset[1]
         )
 
-        outer_wires = boundary.outerWire().offset2D(outer_offset)
+        outer_wires = offset_wire(boundary.outerWire(), outer_offset)
         inner_wires = (
             []
             if inner_offset is None
             else flatten_list(
-                [inner.offset2D(inner_offset) for inner in boundary.innerWires()]
+                [offset_wire(inner, inner_offset) for inner in boundary.innerWires()]
             )
         )
 
-- 
2.43.0


From b9e2e31f76309d78ada36c89c6b3e1b7b9efec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:40 +0000
Subject: [PATCH 47/47] fix: slivers must not crash stepdown pockets

---
 src/cq_cam/utils/geometry_op.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 792e6bf..871f335 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -61,8 +61,10 @@ class PathFace:
 
     @cached_property
     def polygon(self) -> shapely.Polygon:
-        # The outline may touch itself, which is valid only after buffering
-        return shapely.Polygon(shell=self.outer, holes=self.inners).buffer(0)
+        # The outline may touch itself, which is valid only after buffering, and
+        # carry slivers of the resolution of clipper, which are not reliable
+        polygon = shapely.Polygon(shell=self.outer, holes=self.inners).buffer(0)
+        return shapely.set_precision(polygon, 1e-6)
 
 
 def calculate_offset(tool_radius: float, offset: OffsetInput | None, default=None):
-- 
2.43.0

