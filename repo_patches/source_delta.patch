From bd29810cc2c390b89f0515537f8e1b28ca4b16ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:44 +0000
Subject: [PATCH 001/121] fix: GraphicScene.add_as_path: syntax error made the
 module unimportable

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 4e8416d..4426f29 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -400,7 +400,7 @@ class GraphicSceneScope:
 
         """
 
-        item = self.add_item(GraphicItem.PathItem, path.p0, path_style: GraphicPathStyle, user_data)
+        item = self.add_item(GraphicItem.PathItem, path.p0, path_style, user_data)
 
         # cf. add_as_path_segments
         for segment in path:
-- 
2.43.0


From 68320c3a4b22a5a9a062634e40188340883e1f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:52 +0000
Subject: [PATCH 002/121] fix: graphic item mixins: wrong import and undefined
 names in annotations made the module unimportable

---
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index 8aa8053..f708312 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -40,7 +40,7 @@ __all__ = [
 
 from typing import Any
 
-from Path.GeometryEngine.Vector import Vector2D
+from Patro.GeometryEngine.Vector import Vector2D
 from .GraphicStyle import GraphicPathStyle
 # from .Scene import GraphicScene
 
@@ -59,7 +59,7 @@ class GraphicItem:
 
     ##############################################
 
-    def __init__(self, scene: GraphicScene, user_data: Any) -> None:
+    def __init__(self, scene: 'GraphicScene', user_data: Any) -> None:
         self._scene = scene
         self._user_data = user_data
 
@@ -75,7 +75,7 @@ class GraphicItem:
     ##############################################
 
     @property
-    def scene(self) -> GraphicScene:
+    def scene(self) -> 'GraphicScene':
         return self._scene
 
     @property
@@ -177,7 +177,7 @@ class PathStyleItemMixin(GraphicItem):
 
     ##############################################
 
-    def __init__(self, scene: GraphicScene, path_style: GraphicPathStyle, user_data: Any) -> None:
+    def __init__(self, scene: 'GraphicScene', path_style: GraphicPathStyle, user_data: Any) -> None:
         GraphicItem.__init__(self, scene, user_data)
         self._path_style = path_style
 
@@ -270,7 +270,7 @@ class ThreePositionMixin(TwoPositionMixin):
         return self._position3
 
     @property
-    def positions(self) -> list(Vector2D, Vector2D, Vector2D):
+    def positions(self) -> list[Vector2D]:
         return (self._position1, self._position2, self._position3)
 
 ####################################################################################################
-- 
2.43.0


From 67b49cb1d0c60b73a053cb0ca9438862b14c7784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:13 +0000
Subject: [PATCH 003/121] fix: ValentinaMeasurement: import of a renamed class
 made the Valentina formats unimportable

---
 Patro/Measurement/ValentinaMeasurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Measurement/ValentinaMeasurement.py b/Patro/Measurement/ValentinaMeasurement.py
index acf406f..4557f3c 100644
--- a/Patro/Measurement/ValentinaMeasurement.py
+++ b/Patro/Measurement/ValentinaMeasurement.py
@@ -22,7 +22,7 @@
 
 import logging
 
-from .Measurement import Measurement, Measurements
+from .Measurement import Measurement, MeasurementSet
 from .ValentinaStandardMeasurement import ValentinaStandardMeasurement
 
 ####################################################################################################
@@ -81,7 +81,7 @@ class ValentinaMeasurement(Measurement):
 
 ####################################################################################################
 
-class ValentinaMeasurements(Measurements):
+class ValentinaMeasurements(MeasurementSet):
 
     """Class to store a set of Valentina measurements"""
 
-- 
2.43.0


From 0fa7c5bd14762dce85fb9f8d3a03253faec35d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:13 +0000
Subject: [PATCH 004/121] fix: MeasurementSet: misspelled encoding made YAML
 save and load always fail

---
 Patro/Measurement/Measurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index c279842..87391ca 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -234,14 +234,14 @@ class MeasurementSet:
             if measurement.full_name or measurement.description:
                 data += [measurement.full_name, measurement.description]
             measurements[measurement.name] = data
-        with open(yaml_path, 'w', encoding='uft8') as fh:
+        with open(yaml_path, 'w', encoding='utf8') as fh:
             yaml_string = yaml.dump(measurements, default_flow_style=False, width=160)
             fh.write(yaml_string)
 
     ##############################################
 
     def load_yaml(self, yaml_path: str | Path) -> None:
-        with open(yaml_path, 'r', encoding='uft8') as fh:
+        with open(yaml_path, 'r', encoding='utf8') as fh:
             measurements = yaml.load(fh.read(), Loader=yaml.SafeLoader)
             for name, data in measurements.items():
                 if len(data) > 1:
-- 
2.43.0


From 41907289f7177c470c264443805955ad58568507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 005/121] fix: AtomicCounter.increment: the new value was read
 after the lock was released, two threads could get the same one

---
 Patro/Common/AtomicCounter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/AtomicCounter.py b/Patro/Common/AtomicCounter.py
index 98afe7b..247e44d 100644
--- a/Patro/Common/AtomicCounter.py
+++ b/Patro/Common/AtomicCounter.py
@@ -52,7 +52,7 @@ class AtomicCounter:
         """
         with self._lock:
             self._value += value
-        return self._value
+            return self._value
 
     ##############################################
 
-- 
2.43.0


From ae30134ec35dd31f6c22ca93a5d498f0da41d2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 006/121] fix: Measurement.value: measurements were rounded to
 3 digits

---
 Patro/Measurement/Measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index 87391ca..b9c5205 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -117,7 +117,7 @@ class Measurement:
     @property
     def value(self) -> float:
         if self._value is None:
-            self._value = float(self.evaluated_expression.evalf(3))   # ensure a float or raise
+            self._value = float(self.evaluated_expression.evalf())   # ensure a float or raise
         return self._value
 
     def __float__(self) -> float:
-- 
2.43.0


From 473e42f29839dba859909f8c100a4c4d70c93d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 007/121] fix: MeasurementSet.subs: a chain of measurements was
 evaluated or not according to their names

---
 Patro/Measurement/Measurement.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index b9c5205..d617bb2 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -207,7 +207,14 @@ class MeasurementSet:
     ##############################################
 
     def subs(self, measurement: Measurement) -> sympy.core.expr.Expr:
-        return measurement.expression.subs(self._expressions)
+        expression = measurement.expression
+        # subs is sequential, an expression can thus still depend on a measurement, e.g. x = b, b = a
+        for _ in self._expressions:
+            new_expression = expression.subs(self._expressions)
+            if new_expression == expression:
+                break
+            expression = new_expression
+        return expression
 
     ##############################################
 
-- 
2.43.0


From 3bc5a2d7cdcc1c8c3bdb3a7cad10ea97267c074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 008/121] fix: Measurement: a value read before its
 dependencies were added was unresolved forever

---
 Patro/Measurement/Measurement.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index d617bb2..e7c7cf8 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -111,7 +111,11 @@ class Measurement:
             # https://docs.sympy.org/latest/modules/core.html?highlight=subs#sympy.core.basic.Basic.subs
             # variable order doesn't matter, sympy do the job
             # self._evaluated_expression = self._expression.subs(self._measurements._expressions)
-            self._evaluated_expression = self._measurements.subs(self)
+            evaluated_expression = self._measurements.subs(self)
+            if evaluated_expression.free_symbols:
+                # a measurement is still missing, don't cache
+                return evaluated_expression
+            self._evaluated_expression = evaluated_expression
         return self._evaluated_expression
 
     @property
-- 
2.43.0


From c2ed36ec1140f57a34feb73d2878b6a0d17e2ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 009/121] fix: VitFile: the unit and the pattern making system
 of the file were not set on the measurements

---
 Patro/FileFormat/Valentina/Measurement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/FileFormat/Valentina/Measurement.py b/Patro/FileFormat/Valentina/Measurement.py
index 3a26a19..131a577 100644
--- a/Patro/FileFormat/Valentina/Measurement.py
+++ b/Patro/FileFormat/Valentina/Measurement.py
@@ -93,6 +93,8 @@ class VitFileInternal(XmlFileMixin):
         # self.notes = self.get_xpath_element(tree, 'notes').text
         self.unit = self.get_xpath_element(tree, 'unit').text
         self.pattern_making_system = self.get_xpath_element(tree, 'pm_system').text
+        measurements.unit = self.unit
+        measurements.pattern_making_system = self.pattern_making_system
 
         personal = measurements.personal
         personal_element = self.get_xpath_element(tree, 'personal')
-- 
2.43.0


From 14a8baee19c83c6b2597431145c5c2388756b3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:55 +0000
Subject: [PATCH 010/121] fix: Expression: only the last custom measurement of
 an expression was replaced

---
 Patro/Pattern/Calculator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index c451853..f530b60 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -274,9 +274,10 @@ class Expression:
                     break
                 else:
                     custom_measurements.append(name)
-            for measurement in custom_measurements:
+            # longest name first, since a name can be a prefix of another one
+            for measurement in sorted(set(custom_measurements), key=len, reverse=True):
                 py_name = self._calculator.measurements[measurement].name
-                expression = self.expression.replace(measurement, py_name)
+                expression = expression.replace(measurement, py_name)
 
         # Replace special function like Line_A1_A2 to __calculator__._function_Line('A1', 'A2')
         functions = []
-- 
2.43.0


From d817c583f4fdd1099d0cd6911872e07358affe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:55 +0000
Subject: [PATCH 011/121] fix: Expression: Line_A_B1 was misread when Line_A_B
 occurs, as well as CurrentLength when it occurs twice

---
 Patro/Pattern/Calculator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index f530b60..16b4c36 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -299,7 +299,8 @@ class Expression:
                 else:
                     functions.append(name)
         # self._logger.debug('Functions ' + str(functions))
-        for function_call in functions:
+        # each call once and the longest first, since a call can be a part of another one
+        for function_call in sorted(set(functions), key=len, reverse=True):
             parts = function_call.split('_')
             function = parts[0]
             args = parts[1:]
-- 
2.43.0


From c4eb97c74de5f6ce68cc2dde8e47ad9940deb807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 012/121] fix: SketchOperation: an id was rejected when it was
 used in another pattern, only one pattern could be loaded in a process

---
 Patro/Common/AtomicCounter.py    | 8 ++++++++
 Patro/Common/Object.py           | 3 ++-
 Patro/Pattern/Pattern.py         | 6 ++++++
 Patro/Pattern/SketchOperation.py | 6 +++---
 4 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/Patro/Common/AtomicCounter.py b/Patro/Common/AtomicCounter.py
index 247e44d..e13fc73 100644
--- a/Patro/Common/AtomicCounter.py
+++ b/Patro/Common/AtomicCounter.py
@@ -62,3 +62,11 @@ class AtomicCounter:
             if value <= self._value:
                 raise ValueError
             self._value = value
+
+    ##############################################
+
+    def raise_to(self, value):
+        """Atomically raise the counter to a value, a counter which is already beyond is left unchanged."""
+        with self._lock:
+            if value > self._value:
+                self._value = value
diff --git a/Patro/Common/Object.py b/Patro/Common/Object.py
index 0502548..6fdb670 100644
--- a/Patro/Common/Object.py
+++ b/Patro/Common/Object.py
@@ -72,7 +72,8 @@ class ObjectGlobalIdMixin:
 
         # Note: sub-classes share the same counter !
         if id is not None:
-            ObjectGlobalIdMixin.__object_counter__.set(id)
+            # the next automatic ids must be different
+            ObjectGlobalIdMixin.__object_counter__.raise_to(id)
             self._id = id
         else:
             self._id = ObjectGlobalIdMixin.__object_counter__.increment()
diff --git a/Patro/Pattern/Pattern.py b/Patro/Pattern/Pattern.py
index fb7763d..c11ca3f 100644
--- a/Patro/Pattern/Pattern.py
+++ b/Patro/Pattern/Pattern.py
@@ -127,3 +127,9 @@ class PatternScope(ObjectNameMixin):
     @property
     def sketch(self):
         return self._sketch
+
+    ##############################################
+
+    def has_operation_id(self, id):
+        """Return True if the operation id is already attributed in one of the scopes of the pattern"""
+        return any(scope.sketch.has_operation_id(id) for scope in self._pattern.scopes)
diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index a13e051..a4db5f9 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -80,10 +80,10 @@ class SketchOperation(ObjectGlobalIdMixin):
         # Valentina set an incremental integer id for each calculation (entity)
         # id is used to identify operation, see _get_operation
         # A calculation which generate a point has also a name
-        try:
-            super().__init__(id)
-        except ValueError:
+        # id is unique over the pattern
+        if id is not None and sketch.pattern.has_operation_id(id):
             raise NameError("id {} is already attributed".format(id))
+        super().__init__(id)
 
         self._dag_node = self._dag.add_node(pyid(self), data=self)
         self._dependencies = set()
-- 
2.43.0


From 0c097aa382706987b824f67c11ab8232db1d6737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 013/121] fix: StrokeStyleAttribute: a style given by its name
 was written as the Python representation of the enumerate and the file cannot
 be read

---
 Patro/FileFormat/Valentina/VitFormat.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index 111c852..8c3b864 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -126,9 +126,10 @@ class StrokeStyleAttribute(Attribute):
 
     ##############################################
 
-    # @classmethod
-    # def to_xml(cls, value):
-    #     return cls.__TO_STROKE_STYLE__[value]
+    @classmethod
+    def to_xml(cls, value):
+        # value can be an enumerate or already a XML name, see from_xml
+        return cls.__TO_STROKE_STYLE__.get(value, value)
 
 ####################################################################################################
 
-- 
2.43.0


From 64b2110dfb83c7b7c593ee8530273a447750fedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 014/121] fix: StrokeStyleAttribute: an operation with the
 default style could not be saved

---
 Patro/FileFormat/Valentina/VitFormat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index 8c3b864..5583796 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -122,6 +122,8 @@ class StrokeStyleAttribute(Attribute):
 
     @classmethod
     def from_xml(cls, value):
+        if value is None: # default style of an operation
+            return None
         return cls.__STROKE_STYLE__[value]
 
     ##############################################
-- 
2.43.0


From d755cb1bb45ae640c6034d118b33370d291f5397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:33 +0000
Subject: [PATCH 015/121] fix: Sketch.detail_scene: an operation with the
 default style could not be drawn

---
 Patro/Pattern/Sketch.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Patro/Pattern/Sketch.py b/Patro/Pattern/Sketch.py
index c0a6d3d..ab1547b 100644
--- a/Patro/Pattern/Sketch.py
+++ b/Patro/Pattern/Sketch.py
@@ -156,11 +156,12 @@ class Sketch:
 
         """Generate a :class:`GraphicPathStyle` instance for a operation"""
 
-        return GraphicPathStyle(
-            stroke_style=operation.line_style,
-            stroke_color=operation.line_color,
-            **kwargs
-        )
+        # None means default style
+        if operation.line_style is not None:
+            kwargs['stroke_style'] = operation.line_style
+        if operation.line_color is not None:
+            kwargs['stroke_color'] = operation.line_color
+        return GraphicPathStyle(**kwargs)
 
     ##############################################
 
-- 
2.43.0


From 1df7b59dd816f35796ebbb62a55e7ae41d04b78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 016/121] fix: GraphicScene.update_rtree: an item was never
 indexed when its geometry was read before

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 4426f29..1f27e66 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -220,7 +220,8 @@ class GraphicSceneScope:
 
     def update_rtree(self) -> None:
         for item in self._items.values():
-            if item.dirty:
+            # an item is also clean when its geometry was only read
+            if item.dirty or id(item) not in self._item_bounding_box_cache:
                 self.update_rtree_item(item)
 
     ##############################################
-- 
2.43.0


From d5d22d7b3b940fb310b29b37cf9554dedcae578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 017/121] fix: GraphicScene.remove_item: an item could not be
 removed

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 1f27e66..e54f5a4 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -202,13 +202,13 @@ class GraphicSceneScope:
     ##############################################
 
     def remove_item(self, item: GraphicItem) -> None:
-        self.update_rtree(item, insert=False)
+        self.update_rtree_item(item, insert=False)
 
         items = self.item_for_user_data(item.user_data)
         if items:
             items.remove(item)
 
-        del self._items[item]
+        del self._items[id(item)]
 
     ##############################################
 
-- 
2.43.0


From 730874010b5b608363d5d1c93b1e6ed488b20fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 018/121] fix: GraphicItem.dirty: an item marked as dirty kept
 its old geometry

---
 Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
index f708312..6259576 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py
@@ -136,10 +136,10 @@ class GraphicItem:
     def dirty(self, value: bool) -> None:
         if bool(value):
             self._dirty = True
-        else:
-            self._dirty = True
             self._geometry = None
             self._bounding_box = None
+        else:
+            self._dirty = False
 
     ##############################################
 
-- 
2.43.0


From e2c6f409a2df25d73f56fbf7c894758d820e5bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:38 +0000
Subject: [PATCH 019/121] fix: GraphicScene.bezier_path: a linear path could
 not be added

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index e54f5a4..7098946 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -540,7 +540,7 @@ class GraphicSceneScope:
             raise ValueError(f'Wrong number of points for Bezier {degree} curve: {number_of_points}')
 
         items = []
-        for i in range(number_of_points // degree):
+        for i in range(n // degree):
             j = degree * i
             k = j + degree
             item = method(*points[j:k+1], *args, **kwargs)
-- 
2.43.0


From 200ef97c12106ec7d915bb5b107d6b8764ef7c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:38 +0000
Subject: [PATCH 020/121] fix: Polygon2D.distance_to_point: missing, an item
 could not be picked in a scene when a polygon lies nearby

---
 Patro/GeometryEngine/Polygon.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 5bcdfab..313838d 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -217,6 +217,11 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
     ##############################################
 
+    def distance_to_point(self, point):
+        return min([edge.distance_to_point(point) for edge in self.edges])
+
+    ##############################################
+
     @property
     def perimeter(self):
         return sum([edge.length for edge in self.edges])
-- 
2.43.0


From 77132a6f563abd4f30df017d4fe568811e46778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:54 +0000
Subject: [PATCH 021/121] fix: QuadraticBezier2D.closest_point: a list was
 passed as parameter, an item could not be picked near a quadratic curve

---
 Patro/GeometryEngine/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 10c636f..863a020 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -390,7 +390,7 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
             self._logger.warning("Found more than one root {} for {} and point {}".format(t, self, point))
             return None
         else:
-            return self.point_at_t(t)
+            return self.point_at_t(t[0])
 
     ##############################################
 
-- 
2.43.0


From 8f6f4d3382261a04102e7f1d1430b765e48a0bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 022/121] fix: writers: a failed or interrupted save destroyed
 the previous file

---
 Patro/Common/AtomicSave.py                | 82 +++++++++++++++++++++++
 Patro/FileFormat/Svg/SvgFile.py           | 17 +++--
 Patro/FileFormat/Valentina/Pattern.py     |  9 ++-
 Patro/GraphicEngine/Painter/DxfPainter.py |  4 +-
 Patro/GraphicEngine/Painter/PdfPainter.py |  8 ++-
 Patro/GraphicEngine/TeX/Document.py       |  8 ++-
 Patro/Measurement/Measurement.py          |  8 ++-
 7 files changed, 119 insertions(+), 17 deletions(-)
 create mode 100644 Patro/Common/AtomicSave.py

diff --git a/Patro/Common/AtomicSave.py b/Patro/Common/AtomicSave.py
new file mode 100644
index 0000000..f46cc23
--- /dev/null
+++ b/Patro/Common/AtomicSave.py
@@ -0,0 +1,82 @@
+####################################################################################################
+#
+# Patro - A Python library to make patterns for fashion design
+# Copyright (C) 2018 Fabrice Salvaire
+#
+# This program is free software: you can redistribute it and/or modify
+# it under the terms of the GNU Affero General Public License as
+# published by the Free Software Foundation, either version 3 of the
+# License, or (at your option) any later version.
+#
+# This program is distributed in the hope that it will be useful,
+# but WITHOUT ANY WARRANTY; without even the implied warranty of
+# MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+# GNU Affero General Public License for more details.
+#
+# You should have received a copy of the GNU Affero General Public License
+# along with this program.  If not, see <https://www.gnu.org/licenses/>.
+#
+####################################################################################################
+
+"""Module to save a file in such a way that a failure or a crash does not destroy the previous one.
+
+"""
+
+####################################################################################################
+
+__all__ = ['atomic_save']
+
+####################################################################################################
+
+from contextlib import contextmanager, suppress
+from pathlib import Path
+import os
+import shutil
+import uuid
+
+####################################################################################################
+
+def _sync(path, flags):
+    fd = os.open(path, flags)
+    try:
+        os.fsync(fd)
+    finally:
+        os.close(fd)
+
+####################################################################################################
+
+@contextmanager
+def atomic_save(path):
+
+    """Context manager to save a file.
+
+    It yields the path of a temporary file which must be written and closed in the body. On success,
+    this file replaces the file at *path*. Else the temporary file is removed and the file at
+    *path*, if any, is left untouched.
+
+    """
+
+    # Don't replace a symbolic link by a file
+    path = Path(os.path.realpath(str(path)))
+
+    if path.exists() and not path.is_file():
+        # we cannot replace a device, a pipe ...
+        yield str(path)
+        return
+
+    # must be on the same file system, writers can look at the suffix
+    tmp_path = str(path.parent.joinpath('.patro-' + uuid.uuid4().hex + path.suffix))
+    try:
+        yield tmp_path
+        if path.exists():
+            shutil.copymode(str(path), tmp_path)
+        _sync(tmp_path, os.O_RDWR)
+        os.replace(tmp_path, str(path))
+    except BaseException:
+        with suppress(OSError):
+            os.unlink(tmp_path)
+        raise
+
+    if hasattr(os, 'O_DIRECTORY'):
+        # else the replacement could be lost
+        _sync(str(path.parent), os.O_RDONLY | os.O_DIRECTORY)
diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index bea1f95..b423ce4 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -38,6 +38,7 @@ from lxml import etree
 
 from IntervalArithmetic import Interval2D
 
+from Patro.Common.AtomicSave import atomic_save
 from Patro.Common.Xml.XmlFile import XmlFileMixin
 from Patro.GeometryEngine.Transformation import AffineTransformation2D
 from . import SvgFormat
@@ -434,13 +435,17 @@ class SvgFileWriter(SvgFileMixin):
             group.append(element.to_xml())
 
         tree = etree.ElementTree(root)
-        tree.write(self._path,
-                   pretty_print=True,
-                   xml_declaration=True,
-                   encoding='utf-8',
-                   standalone=False,
-                   doctype=self.SVG_DOCTYPE,
+        source = etree.tostring(
+            tree,
+            pretty_print=True,
+            xml_declaration=True,
+            encoding='utf-8',
+            standalone=False,
+            doctype=self.SVG_DOCTYPE,
         )
+        with atomic_save(self._path) as path:
+            with open(path, 'wb') as fh:
+                fh.write(source)
 
 ####################################################################################################
 
diff --git a/Patro/FileFormat/Valentina/Pattern.py b/Patro/FileFormat/Valentina/Pattern.py
index 1cd2fef..60e7208 100644
--- a/Patro/FileFormat/Valentina/Pattern.py
+++ b/Patro/FileFormat/Valentina/Pattern.py
@@ -29,6 +29,7 @@ from pathlib import Path
 
 from lxml import etree
 
+from Patro.Common.AtomicSave import atomic_save
 from Patro.Common.Xml.XmlFile import XmlFileMixin
 from Patro.Pattern.Pattern import Pattern
 from .Measurement import VitFile
@@ -427,6 +428,8 @@ class ValFileWriter:
 
     def _write(self, root):
 
-        with open(self._path, 'wb') as fh:
-            # ElementTree.write() ?
-            fh.write(etree.tostring(root, pretty_print=True))
+        source = etree.tostring(root, pretty_print=True)
+        with atomic_save(self._path) as path:
+            with open(path, 'wb') as fh:
+                # ElementTree.write() ?
+                fh.write(source)
diff --git a/Patro/GraphicEngine/Painter/DxfPainter.py b/Patro/GraphicEngine/Painter/DxfPainter.py
index d988ce8..bd6eb76 100644
--- a/Patro/GraphicEngine/Painter/DxfPainter.py
+++ b/Patro/GraphicEngine/Painter/DxfPainter.py
@@ -26,6 +26,7 @@ __all__ = [
 
 import logging
 
+from Patro.Common.AtomicSave import atomic_save
 from Patro.GeometryEngine.Vector import Vector2D
 from Patro.GraphicStyle import StrokeStyle, Colors
 from .Painter import Painter
@@ -98,7 +99,8 @@ class EzdxfPainter(DxfPainterBase):
         #     print('{}: {}'.format(line_type.dxf.name, line_type.dxf.description))
 
         self.paint()
-        self._drawing.saveas(path)
+        with atomic_save(path) as tmp_path:
+            self._drawing.saveas(tmp_path)
 
     ##############################################
 
diff --git a/Patro/GraphicEngine/Painter/PdfPainter.py b/Patro/GraphicEngine/Painter/PdfPainter.py
index 9c5ed7e..f67dd8b 100644
--- a/Patro/GraphicEngine/Painter/PdfPainter.py
+++ b/Patro/GraphicEngine/Painter/PdfPainter.py
@@ -26,6 +26,7 @@ __all__ = [
 
 import logging
 
+from Patro.Common.AtomicSave import atomic_save
 from Patro.GeometryEngine.Vector import Vector2D
 from Patro.GraphicStyle import StrokeStyle
 from .Painter import Painter, Tiler
@@ -84,7 +85,7 @@ class ReportlabPainter(PdfPainterBase):
         super().__init__(path, scene, paper)
 
         self._canvas = canvas.Canvas(
-            str(self._path),
+            None, # cf. infra
             pagesize=self.page_size,
             # bottomup=1,
             # pageCompression=0,
@@ -107,7 +108,10 @@ class ReportlabPainter(PdfPainterBase):
 
         self.paint()
         self._canvas.showPage()
-        self._canvas.save()
+        source = self._canvas.getpdfdata()
+        with atomic_save(self._path) as tmp_path:
+            with open(tmp_path, 'wb') as fh:
+                fh.write(source)
 
     ##############################################
 
diff --git a/Patro/GraphicEngine/TeX/Document.py b/Patro/GraphicEngine/TeX/Document.py
index acc8516..c510455 100644
--- a/Patro/GraphicEngine/TeX/Document.py
+++ b/Patro/GraphicEngine/TeX/Document.py
@@ -25,6 +25,7 @@ import subprocess
 
 ####################################################################################################
 
+from Patro.Common.AtomicSave import atomic_save
 from .Buffer import Buffer
 from .Environment import Environment
 
@@ -104,8 +105,11 @@ class Document:
 
     def write(self):
 
-        with open(self.tex_filename, 'w') as fd:
-            fd.write(str(self))
+        source = str(self)
+        with atomic_save(self.tex_filename) as path:
+            # cf. inputenc
+            with open(path, 'w', encoding='utf8') as fd:
+                fd.write(source)
 
     ##############################################
 
diff --git a/Patro/Measurement/Measurement.py b/Patro/Measurement/Measurement.py
index e7c7cf8..abe6bd3 100644
--- a/Patro/Measurement/Measurement.py
+++ b/Patro/Measurement/Measurement.py
@@ -29,6 +29,7 @@ from typing import Optional, Iterator
 import sympy
 import yaml
 
+from Patro.Common.AtomicSave import atomic_save
 from .PersonalData import PersonalData
 
 ####################################################################################################
@@ -245,9 +246,10 @@ class MeasurementSet:
             if measurement.full_name or measurement.description:
                 data += [measurement.full_name, measurement.description]
             measurements[measurement.name] = data
-        with open(yaml_path, 'w', encoding='utf8') as fh:
-            yaml_string = yaml.dump(measurements, default_flow_style=False, width=160)
-            fh.write(yaml_string)
+        yaml_string = yaml.dump(measurements, default_flow_style=False, width=160)
+        with atomic_save(yaml_path) as path:
+            with open(path, 'w', encoding='utf8') as fh:
+                fh.write(yaml_string)
 
     ##############################################
 
-- 
2.43.0


From dd3968dae7492f66657e02efbb16c431e90b0631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 023/121] fix: PdfPainter: the default driver cannot be used

---
 Patro/GraphicEngine/Painter/PdfPainter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/PdfPainter.py b/Patro/GraphicEngine/Painter/PdfPainter.py
index f67dd8b..498414f 100644
--- a/Patro/GraphicEngine/Painter/PdfPainter.py
+++ b/Patro/GraphicEngine/Painter/PdfPainter.py
@@ -165,6 +165,5 @@ _driver_to_cls = {
 
 def PdfPainter(*args, **kwargs):
     """Wrapper to driver classes"""
-    driver = kwargs.get('driver', 'reportlab')
-    del kwargs['driver']
+    driver = kwargs.pop('driver', 'reportlab')
     return _driver_to_cls[driver](*args, **kwargs)
-- 
2.43.0


From 9d1c8b762ce439a0c771c678d13f47e322bf1696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 024/121] fix: Tiler: the bounding box of the scene was
 enlarged each time the scene was tiled

---
 Patro/GraphicEngine/Painter/Painter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/Painter.py b/Patro/GraphicEngine/Painter/Painter.py
index 66b6d34..da287e4 100644
--- a/Patro/GraphicEngine/Painter/Painter.py
+++ b/Patro/GraphicEngine/Painter/Painter.py
@@ -42,7 +42,7 @@ class Tiler:
 
     def __init__(self, bounding_box, paper, margin=1):
         # print('Tiler', bounding_box)
-        self._bounding_box = bounding_box.enlarge(margin)
+        self._bounding_box = bounding_box.clone().enlarge(margin)
         self._paper = paper
 
     ##############################################
-- 
2.43.0


From 6620ee268c5cba7b718f17813fa8a8f58ff86d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 025/121] fix: SvgPainter: a point was written as an empty text

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index 8eeb761..fc824be 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -114,7 +114,7 @@ class SvgPainter(Painter):
 
     def paint_CircleItem(self, item):
         x, y = self.cast_position(item.position)
-        circle = SvgFormat.Text(cx=x, cy=y, r=2, fill='black', _class='normal')
+        circle = SvgFormat.Circle(cx=x, cy=y, r=2, fill='black')
         self._append(circle)
 
     ##############################################
-- 
2.43.0


From 5fd9891a070d4d990f776f83853ff71e6ef017de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:10 +0000
Subject: [PATCH 026/121] fix: Tiler: rows and columns were swapped, the tiles
 did not cover the scene

---
 Patro/GraphicEngine/Painter/Painter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/Painter.py b/Patro/GraphicEngine/Painter/Painter.py
index da287e4..5f8acd2 100644
--- a/Patro/GraphicEngine/Painter/Painter.py
+++ b/Patro/GraphicEngine/Painter/Painter.py
@@ -66,7 +66,7 @@ class Tiler:
 
         for r in range(number_of_rows):
             for c in range(number_of_columns):
-                local_min_point = min_point + area_vector * Vector2D(r, c)
+                local_min_point = min_point + area_vector * Vector2D(c, r)
                 local_max_point = local_min_point + area_vector
                 interval = Interval2D((local_min_point.x, local_max_point.x), (local_min_point.y, local_max_point.y))
                 yield (interval, r, c)
-- 
2.43.0


From 693ea70d311280a439e48b277e47b14fea4f1b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:10 +0000
Subject: [PATCH 027/121] fix: SvgPainter: translation and scale were composed
 in the wrong order, the drawing was out of the page

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index fc824be..d5b5b69 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -66,8 +66,9 @@ class SvgPainter(Painter):
         self._paper = paper
 
         bounding_box = scene.bounding_box
-        self._transformation = AffineTransformation2D.Scale(10, -10)
-        self._transformation *= AffineTransformation2D.Translation(-Vector2D(bounding_box.x.inf, bounding_box.y.sup))
+        # Order matters, cf. Transformation.__imul__
+        self._transformation = AffineTransformation2D.Translation(-Vector2D(bounding_box.x.inf, bounding_box.y.sup))
+        self._transformation *= AffineTransformation2D.Scale(10, -10)
 
         self._tree = []
         self._append(SvgFormat.Style(text='''
-- 
2.43.0


From c41c62c1b2a7bf96c6a614fad6ba81c98b57d0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 028/121] fix: SvgPainter: cubic Bezier curves were not written

---
 Patro/FileFormat/Svg/SvgFormat.py         | 3 +++
 Patro/GraphicEngine/Painter/SvgPainter.py | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index c8882bf..6d82ffa 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -960,6 +960,9 @@ class PathDataAttribute(StringAttribute):
 
         # cls._logger.info('SVG path:\n'+ svg_path)
 
+        if isinstance(svg_path, (tuple, list)): # Python value
+            return svg_path
+
         # Replace comma separator by space
         cleaned_svg_path = svg_path.replace(',', ' ')
         # Add space after letter
diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index d5b5b69..c0e22b3 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -136,9 +136,9 @@ class SvgPainter(Painter):
     def paint_CubicBezierItem(self, item):
         coordinates = self.cast_item_coordinates(item, flat=True)
         path = SvgFormat.Path(
-            path_data='M {} {} C {} {}, {} {}, {} {}'.format(*coordinates),
+            path_data=[('M', coordinates[:2]), ('C', coordinates[2:])],
             fill='none',
             **self._graphic_style(item),
         )
-        #!# self._append(path)
+        self._append(path)
 
-- 
2.43.0


From 68f18b5e0eba416555ecbfe54df66e0b12e16a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 029/121] fix: SvgPainter: a colour without name was written as
 None

---
 Patro/GraphicEngine/Painter/SvgPainter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/SvgPainter.py b/Patro/GraphicEngine/Painter/SvgPainter.py
index c0e22b3..670eb84 100644
--- a/Patro/GraphicEngine/Painter/SvgPainter.py
+++ b/Patro/GraphicEngine/Painter/SvgPainter.py
@@ -93,7 +93,8 @@ class SvgPainter(Painter):
     def _graphic_style(self, item):
 
         path_syle = item.path_style
-        color = path_syle.stroke_color.name
+        # a colour is not necessarily a named one
+        color = path_syle.stroke_color.name or str(path_syle.stroke_color)
         line_style = self.__STROKE_STYLE__[path_syle.stroke_style]
         line_width = str(path_syle.line_width_as_float)
 
-- 
2.43.0


From f0dee623a010a761e345bcda827fbb61b9110ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 030/121] fix: TikzFigure: a colour without name was drawn in
 black

---
 Patro/GraphicEngine/TeX/Tikz.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/TeX/Tikz.py b/Patro/GraphicEngine/TeX/Tikz.py
index af8a16a..dff0080 100644
--- a/Patro/GraphicEngine/TeX/Tikz.py
+++ b/Patro/GraphicEngine/TeX/Tikz.py
@@ -41,7 +41,11 @@ class TikzFigure(Environment):
     def format_path_style(path_syle):
 
         stroke_style = TikzFigure.__STROKE_STYLE__[path_syle.stroke_style]
-        stroke_color = path_syle.stroke_color.name
+        color = path_syle.stroke_color
+        if color.name is not None:
+            stroke_color = color.name
+        else:
+            stroke_color = 'draw={{rgb,255:red,{0.red};green,{0.green};blue,{0.blue}}}'.format(color)
 
         styles = []
         styles.append('line width={}'.format(path_syle.line_width))
-- 
2.43.0


From d49130eae2a471ad97f85248b32aa19c7e89dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 031/121] fix: TikzFigure: a scene having a dash dot dot line
 could not be painted

---
 Patro/GraphicEngine/TeX/Tikz.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Patro/GraphicEngine/TeX/Tikz.py b/Patro/GraphicEngine/TeX/Tikz.py
index dff0080..32f925d 100644
--- a/Patro/GraphicEngine/TeX/Tikz.py
+++ b/Patro/GraphicEngine/TeX/Tikz.py
@@ -32,6 +32,7 @@ class TikzFigure(Environment):
     __STROKE_STYLE__ = {
         StrokeStyle.DashLine: 'dash pattern=on 5mm off 5mm',
         StrokeStyle.DashDotLine: 'dash pattern=on 5mm off 4mm on 2mm off 4mm', # 'loosely dashdotted',
+        StrokeStyle.DashDotDotLine: 'dash pattern=on 5mm off 4mm on 2mm off 4mm on 2mm off 4mm',
         StrokeStyle.DotLine: 'dash pattern=on 2mm off 2mm', # 'dotted',
         StrokeStyle.NoPen: None,
         StrokeStyle.SolidLine: 'solid',
-- 
2.43.0


From 405f29248cf5ebcad20e3f28b22fb3527a454cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 032/121] fix: DxfPainter: a text could not be drawn, set_pos
 was removed from ezdxf

---
 Patro/GraphicEngine/Painter/DxfPainter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/DxfPainter.py b/Patro/GraphicEngine/Painter/DxfPainter.py
index bd6eb76..967f576 100644
--- a/Patro/GraphicEngine/Painter/DxfPainter.py
+++ b/Patro/GraphicEngine/Painter/DxfPainter.py
@@ -126,7 +126,8 @@ class EzdxfPainter(DxfPainterBase):
         position = self.cast_position(item.position)
         # Fixme: anchor position
         # https://ezdxf.readthedocs.io/en/latest/tutorials/text.html
-        self._model_space.add_text(item.text).set_pos(list(position), align='CENTER')
+        text = self._model_space.add_text(item.text)
+        text.set_placement(list(position), align=ezdxf.enums.TextEntityAlignment.CENTER)
 
     ##############################################
 
-- 
2.43.0


From c0b5c17bcda7b9155723dbd0044aac3c63fe71dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 033/121] fix: DxfPainter: only a black line could be drawn

---
 Patro/GraphicEngine/Painter/DxfPainter.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/DxfPainter.py b/Patro/GraphicEngine/Painter/DxfPainter.py
index 967f576..269fb9f 100644
--- a/Patro/GraphicEngine/Painter/DxfPainter.py
+++ b/Patro/GraphicEngine/Painter/DxfPainter.py
@@ -75,7 +75,6 @@ class EzdxfPainter(DxfPainterBase):
     }
 
     __COLOR__ = {
-        None : None,
         'black': 0,
     }
 
@@ -114,11 +113,17 @@ class EzdxfPainter(DxfPainterBase):
         path_style = item.path_style
         if path_style.stroke_color is None:
             return {'linetype': 'PHANTOM', 'color': 2} # Fixme:
-        color = self.__COLOR__[path_style.stroke_color.name] # see also true_color color_name (AutoCAD R2004)
         line_type = self.__STROKE_STYLE__[path_style.stroke_style]
         # https://ezdxf.readthedocs.io/en/latest/graphic_base_class.html#GraphicEntity.dxf.lineweight
         # line_weight = float(path_syle.line_width.replace('pt', '')) / 3 # Fixme: pt ???
-        return {'linetype': line_type, 'color': color} # 'lineweight':line_weight
+        attributes = {'linetype': line_type} # 'lineweight':line_weight
+        color = path_style.stroke_color
+        if color.name in self.__COLOR__:
+            attributes['color'] = self.__COLOR__[color.name]
+        else:
+            # AutoCAD R2004
+            attributes['true_color'] = ezdxf.colors.rgb2int((color.red, color.green, color.blue))
+        return attributes
 
     ##############################################
 
-- 
2.43.0


From 798e6e9b90147e558ec77bedaf15c2a0b72d4cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 034/121] fix: DxfPainter: line types were not defined in the
 file

---
 Patro/GraphicEngine/Painter/DxfPainter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/DxfPainter.py b/Patro/GraphicEngine/Painter/DxfPainter.py
index 269fb9f..e665fdc 100644
--- a/Patro/GraphicEngine/Painter/DxfPainter.py
+++ b/Patro/GraphicEngine/Painter/DxfPainter.py
@@ -68,10 +68,10 @@ class EzdxfPainter(DxfPainterBase):
     __STROKE_STYLE__ = {
         StrokeStyle.NoPen: 'PHANTOM', # Fixme: ???
         StrokeStyle.SolidLine: 'CONTINUOUS',
-        StrokeStyle.DashLine: 'DASH', # Fixme:
-        StrokeStyle.DotLine: 'DOTTED',
+        StrokeStyle.DashLine: 'DASHED',
+        StrokeStyle.DotLine: 'DOT',
         StrokeStyle.DashDotLine: 'DASHDOT',
-        StrokeStyle.DashDotDotLine: 'DASHDOTDOT', # Fixme:
+        StrokeStyle.DashDotDotLine: 'DIVIDE', # dash dot dot
     }
 
     __COLOR__ = {
@@ -85,7 +85,7 @@ class EzdxfPainter(DxfPainterBase):
         super().__init__(path, scene, paper)
 
         self._dxf_version = dxf_version
-        self._drawing = ezdxf.new(dxf_version)
+        self._drawing = ezdxf.new(dxf_version, setup=['linetypes'])
         self._model_space= self._drawing.modelspace() # add new entities to the model space
         # self._model_space.page_setup(
         #     size=(self._paper.width, self._paper.height),
-- 
2.43.0


From ad98d15c941b2dbcf36d2fc39b8da0c3b1d2644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 035/121] fix: SvgDispatcher: the state of a group leaked to
 the elements which follow it

---
 Patro/FileFormat/Svg/SvgFile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index b423ce4..e25688e 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -284,6 +284,8 @@ class SvgDispatcher:
 
         self.on_root(element)
 
+        self._state_stack.pop()
+
     ##############################################
 
     def on_graphic_item(self, element):
-- 
2.43.0


From cebfd522329a10d6c64fedaad9fbeed4ac8885b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 036/121] fix: SvgFormat.Polygon: wrong tag, a file having a
 polygon could not be read

---
 Patro/FileFormat/Svg/SvgFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 6d82ffa..de3f601 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -1124,7 +1124,7 @@ class Polygon(Polyline, XmlObjectAdaptator):
 
     """Defines any shape that consists of only straight lines"""
 
-    __tag__ = 'polyline'
+    __tag__ = 'polygon'
 
     # fill-rule="part of the FillStroke presentation attributes"
 
-- 
2.43.0


From 5e45279a158a308f2866c52a8460f0efeab597ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 037/121] fix: TextXmlObjectAdaptator: the text read from XML
 was lost

---
 Patro/Common/Xml/Objectivity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 7b557c9..cf4f973 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -351,15 +351,16 @@ class TextXmlObjectAdaptator(XmlObjectAdaptator):
 
     def __init__(self, *args, **kwargs):
 
-        super().__init__(*args, **kwargs)
         self.text = kwargs.get('text', '')
+        super().__init__(*args, **kwargs)
 
     ##############################################
 
     def _init_from_xml(self, xml_element):
 
         super()._init_from_xml(xml_element)
-        self.text = str(xml_element.text)
+        # text is None for an empty element
+        self.text = str(xml_element.text or '')
 
     ##############################################
 
-- 
2.43.0


From 6e54f6a73a217d24ab73edcbddbf9703ad28be35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 038/121] fix: BoolAttribute: a Python boolean was rejected

---
 Patro/Common/Xml/Objectivity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index cf4f973..7f0535a 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -132,7 +132,9 @@ class BoolAttribute(Attribute):
 
     @classmethod
     def from_xml(cls, value):
-        if value == "true" or value == "1":
+        if isinstance(value, bool): # Python value
+            return value
+        elif value == "true" or value == "1":
             return True
         elif value == "false" or value == "0":
             return False
-- 
2.43.0


From e65866e53d7ab9b2d403c450037ac3ff0ef72d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:25 +0000
Subject: [PATCH 039/121] fix: SvgDispatcher: a file having a comment could not
 be read

---
 Patro/FileFormat/Svg/SvgFile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index e25688e..3572ffb 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -265,6 +265,8 @@ class SvgDispatcher:
     def on_root(self, root):
 
         for element in root:
+            if not isinstance(element.tag, str):
+                continue # comment or processing instruction
             tag = self.element_tag(element)
             if tag == 'g':
                 self.on_group(element)
-- 
2.43.0


From b551debd0bf2b5bb153364b9b97ca82c719d3d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:58 +0000
Subject: [PATCH 040/121] fix: Path2D.__repr__: not implemented, a SVG file
 having a path could not be read

---
 Patro/GeometryEngine/Path.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 1e206db..210de7a 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -882,6 +882,11 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     ##############################################
 
+    def __repr__(self):
+        return '{0}({1._p0}, {1._parts})'.format(self.__class__.__name__, self)
+
+    ##############################################
+
     def __init__(self, start_point):
 
         Primitive1PMixin.__init__(self, start_point)
-- 
2.43.0


From d1d0b682198d148314ef52b59ab74f9af9dd13d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:58 +0000
Subject: [PATCH 041/121] fix: SvgFile.RenderState: an attribute not set on an
 item reset the one of its group

---
 Patro/FileFormat/Svg/SvgFile.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 3572ffb..e97e2df 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -116,11 +116,13 @@ class RenderState:
         for state in self.STATES:
             if hasattr(item, state):
                 value = getattr(item, state)
-                if state == 'transform':
-                    if value is not None:
-                        # Transform matrix is composed from top to item
-                        # thus left to right
-                        self.transform = self.transform * value
+                if value is None:
+                    # not set on the item, the state is inherited
+                    pass
+                elif state == 'transform':
+                    # Transform matrix is composed from top to item
+                    # thus left to right
+                    self.transform = self.transform * value
                 elif state == 'style':
                     pass
                 else:
-- 
2.43.0


From 695274d5941c3d6f635c178e5a36be2438365e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:58 +0000
Subject: [PATCH 042/121] fix: SvgFormat.Ellipse: id and transform were
 missing, a file having an ellipse could not be read

---
 Patro/FileFormat/Svg/SvgFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index de3f601..5d0b84d 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -738,7 +738,7 @@ class Desc(XmlObjectAdaptator):
 
 ####################################################################################################
 
-class Ellipse(CenterMixin, PathMixin, StyleMixin, XmlObjectAdaptator):
+class Ellipse(CenterMixin, PathMixin, SvgElementMixin, XmlObjectAdaptator):
 
     """Defines an ellipse"""
 
-- 
2.43.0


From 8e0b48eda78fce79e55a98fce57d2cbbea587218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 043/121] fix: Calculator: only Line_A_B was registered as a
 dependency, AngleLine_A_B and co were missing

---
 Patro/Pattern/Calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Pattern/Calculator.py b/Patro/Pattern/Calculator.py
index 16b4c36..f298e93 100644
--- a/Patro/Pattern/Calculator.py
+++ b/Patro/Pattern/Calculator.py
@@ -68,7 +68,7 @@ class NodeVisitor(ast.NodeVisitor):
         function = node.func
         if isinstance(function, ast.Attribute) and function.value.id == '__calculator__':
             dag = self._calculator.dag
-            if function.attr == '_function_Line': # catched _function_Line.__calculator__
+            if function.attr.startswith('_function_'): # catched _function_Line.__calculator__
                 for arg in node.args:
                     dependence = self._calculator._name_to_point(arg.s)
                     self._dependencies.append(dependence)
-- 
2.43.0


From 47447820a89f391aae2a45481d494440fbb4916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 044/121] fix: AlongLinePoint, NormalPoint: the current segment
 was left set after a failed evaluation

---
 Patro/Pattern/SketchOperation.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/Patro/Pattern/SketchOperation.py b/Patro/Pattern/SketchOperation.py
index a4db5f9..074c745 100644
--- a/Patro/Pattern/SketchOperation.py
+++ b/Patro/Pattern/SketchOperation.py
@@ -471,8 +471,10 @@ class AlongLinePoint(Point, LinePropertiesMixin, FirstSecondPointMixin, LengthMi
 
         vector = self._second_point.vector - self._first_point.vector
         self._sketch.calculator.set_current_segment(vector)
-        self._vector = self._first_point.vector + vector.to_normalised()*self._length.value
-        self._sketch.calculator.unset_current_segment()
+        try:
+            self._vector = self._first_point.vector + vector.to_normalised()*self._length.value
+        finally:
+            self._sketch.calculator.unset_current_segment()
         self._post_eval_internal()
 
 ####################################################################################################
@@ -592,13 +594,15 @@ class NormalPoint(Point, LinePropertiesMixin, FirstSecondPointMixin, LengthAngle
 
         vector = self._second_point.vector - self._first_point.vector
         self._sketch.calculator.set_current_segment(vector)
-        direction = vector.to_normalised()
-        direction = direction.normal
-        angle = self._angle.value
-        if angle:
-            direction = direction.rotate(angle)
-        self._vector = self._first_point.vector + direction*self._length.value
-        self._sketch.calculator.unset_current_segment()
+        try:
+            direction = vector.to_normalised()
+            direction = direction.normal
+            angle = self._angle.value
+            if angle:
+                direction = direction.rotate(angle)
+            self._vector = self._first_point.vector + direction*self._length.value
+        finally:
+            self._sketch.calculator.unset_current_segment()
         self._post_eval_internal()
 
 ####################################################################################################
-- 
2.43.0


From 217fa0ccae2ef3964231d46f984c86a20ccc4593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:23 +0000
Subject: [PATCH 045/121] fix: SimpleInteractiveSpline: a spline without colour
 was saved with the colour None and the file could not be drawn

---
 Patro/FileFormat/Valentina/VitFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Valentina/VitFormat.py b/Patro/FileFormat/Valentina/VitFormat.py
index 5583796..4da874c 100644
--- a/Patro/FileFormat/Valentina/VitFormat.py
+++ b/Patro/FileFormat/Valentina/VitFormat.py
@@ -645,7 +645,7 @@ class SimpleInteractiveSpline(SplineMixin, XmlObjectAdaptator):
         StringAttribute('length2'),
         StringAttribute('angle1'),
         StringAttribute('angle2'),
-        StringAttribute('line_color', 'color'),
+        ColorAttribute('line_color', 'color'),
     )
     __operation__ = SketchOperation.SimpleInteractiveSpline
 
-- 
2.43.0


From 223e1d803cca09d48112919256a989ca433a5494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:31 +0000
Subject: [PATCH 046/121] fix: Segment2D.contain_point: a length was compared
 to 1, a point of contact was placed on the wrong side

---
 Patro/GeometryEngine/Segment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Segment.py b/Patro/GeometryEngine/Segment.py
index cd2c455..0e89732 100644
--- a/Patro/GeometryEngine/Segment.py
+++ b/Patro/GeometryEngine/Segment.py
@@ -217,4 +217,4 @@ class Segment2D(Primitive2DMixin, Primitive2P):
         # Fixme: check d / is collinear
         # Fixme: p2 <- p1
         #! print('>'*10, line, point, d, s)
-        return 0 <= s <= 1
+        return 0 <= s <= self.length # s is a length
-- 
2.43.0


From e849227572c2c0fa31d1b259e7ca59207d168b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:32 +0000
Subject: [PATCH 047/121] fix: Circle2D.intersect_segment: a vector was
 returned instead of a list of points for a tangent line

---
 Patro/GeometryEngine/Conic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index e237080..19d8809 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -293,7 +293,7 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         elif discriminant == 0: # tangent line
             x = (  D * dy ) / dr2
             y = (- D * dx ) / dr2
-            return Vector2D(x, y) + self.center
+            return (Vector2D(x, y) + self.center,)
         else: # intersection
             x_a =  D * dy
             y_a = -D * dx
-- 
2.43.0


From d6468c27fbee53c9eefbccbaf7c39c52c980ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:08 +0000
Subject: [PATCH 048/121] fix: ValentinaMeasurement: a number was rejected, a
 YAML file saved from Valentina measurements could not be loaded in such a set

---
 Patro/Measurement/ValentinaMeasurement.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/Measurement/ValentinaMeasurement.py b/Patro/Measurement/ValentinaMeasurement.py
index 4557f3c..6052e26 100644
--- a/Patro/Measurement/ValentinaMeasurement.py
+++ b/Patro/Measurement/ValentinaMeasurement.py
@@ -65,7 +65,9 @@ class ValentinaMeasurement(Measurement):
         #     name = name[1:]
         #     if name in _valentina_standard_measurement:
         #         name = self.CUSTOM_PREFIX + name
-        value = self.replace_custom_prefix(value)
+        # a number has no reference, e.g. when it is loaded from a YAML file
+        if isinstance(value, str):
+            value = self.replace_custom_prefix(value)
         super().__init__(measurements, name, value, full_name, description)
 
     ##############################################
-- 
2.43.0


From b7ac111718bd6250f928bc7cbb5928b3aaf7c9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:50 +0000
Subject: [PATCH 049/121] fix: VitFile: an empty email was read as the text
 None

---
 Patro/FileFormat/Valentina/Measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Valentina/Measurement.py b/Patro/FileFormat/Valentina/Measurement.py
index 131a577..a22c941 100644
--- a/Patro/FileFormat/Valentina/Measurement.py
+++ b/Patro/FileFormat/Valentina/Measurement.py
@@ -104,7 +104,7 @@ class VitFileInternal(XmlFileMixin):
         # personal.first_name = self.get_xpath_element(personal_element, 'given-name').text
         personal.birth_date = self.get_xpath_element(personal_element, 'birth-date').text
         personal.gender = Gender[self.get_xpath_element(personal_element, 'gender').text.upper()]
-        personal.email = self.get_xpath_element(personal_element, 'email').text
+        personal.email = self.get_xpath_element(personal_element, 'email').text or ''
 
         elements = self.get_xpath_element(tree, 'body-measurements')
         for element in elements:
-- 
2.43.0


From 33ff04890d185da62ef2cb0ca5cbbff42054da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:46 +0000
Subject: [PATCH 050/121] fix: DirectedAcyclicGraphNode.ancestor: misspelled
 attribute, the ancestors of a node could not be read

---
 Patro/Common/Graph/DirectedAcyclicGraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/Common/Graph/DirectedAcyclicGraph.py b/Patro/Common/Graph/DirectedAcyclicGraph.py
index f0944b4..d9bb62e 100644
--- a/Patro/Common/Graph/DirectedAcyclicGraph.py
+++ b/Patro/Common/Graph/DirectedAcyclicGraph.py
@@ -59,7 +59,7 @@ class DirectedAcyclicGraphNode:
 
     @property
     def ancestor(self):
-        return self._ancestor
+        return self._ancestors
 
     @property
     def descendants(self):
-- 
2.43.0


From 66ab5691b2b43510d2fa9aa8d6402d392c2865a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:11 +0000
Subject: [PATCH 051/121] fix: Bezier closest_point: none was found near the
 ends of a curve or when it has several candidates, and it failed for a
 straight quadratic curve

---
 Patro/Common/Math/Root.py      |  5 ++++-
 Patro/GeometryEngine/Bezier.py | 38 +++++++++-------------------------
 2 files changed, 14 insertions(+), 29 deletions(-)

diff --git a/Patro/Common/Math/Root.py b/Patro/Common/Math/Root.py
index 8aab8ec..44f867b 100644
--- a/Patro/Common/Math/Root.py
+++ b/Patro/Common/Math/Root.py
@@ -72,7 +72,10 @@ def quadratic_root(a, b, c):
 def cubic_root(a, b, c, d):
 
     if a == 0:
-        return quadratic_root(b, c, d)
+        roots = quadratic_root(b, c, d)
+        if roots is None:
+            return ()
+        return roots if isinstance(roots, tuple) else (roots,)
     else:
         return cubic_root_sympy(a, b, c, d)
 
diff --git a/Patro/GeometryEngine/Bezier.py b/Patro/GeometryEngine/Bezier.py
index 863a020..af714a6 100644
--- a/Patro/GeometryEngine/Bezier.py
+++ b/Patro/GeometryEngine/Bezier.py
@@ -194,6 +194,14 @@ class BezierMixin2D(Primitive2DMixin):
 
     ##############################################
 
+    def _closest_point_for_roots(self, point, roots):
+        # a root can be a maximum, and the closest point can be an end of the curve
+        t = [0, 1] + [float(root) for root in roots if 0 < root < 1]
+        points = [self.point_at_t(_) for _ in t]
+        return min(points, key=lambda p: (point - p).magnitude_square)
+
+    ##############################################
+
     def distance_to_point(self, point):
         p = self.closest_point(point)
         if p is not None:
@@ -383,14 +391,7 @@ class QuadraticBezier2D(BezierMixin2D, Primitive3P):
             2*A.magnitude_square + M.dot(B),
             M.dot(A),
         )
-        t = [root for root in roots if 0 <= root <= 1]
-        if not t:
-            return None
-        elif len(t) > 1:
-            self._logger.warning("Found more than one root {} for {} and point {}".format(t, self, point))
-            return None
-        else:
-            return self.point_at_t(t[0])
+        return self._closest_point_for_roots(point, roots)
 
     ##############################################
 
@@ -873,23 +874,4 @@ class CubicBezier2D(BezierMixin2D, Primitive4P):
             2*point.dot(r) - 2*r.dot(v) - s.magnitude_square,
             point.dot(s) - s.dot(v),
         )
-        # Fixme: to func
-        t = [root for root in roots if 0 <= root <= 1]
-        if not t:
-            return None
-        elif len(t) > 1:
-            # Fixme:
-            # Found more than one root [0, 0.516373783749732]
-            # for CubicBezier2D(
-            #   Vector2D[1394.4334 1672.0004], Vector2D[1394.4334 1672.0004],
-            #   Vector2D[1585.0004 1624.9634], Vector2D[1585.0004 1622.0004])
-            # and point Vector2D[1495.11502887 1649.7386517 ]
-            # raise NameError("Found more than one root: {}".format(t))
-            self._logger.warning("Found more than one root {} for {} and point {}".format(t, self, point))
-            # self._logger.warning("is flat {}".format(self.is_flat_enough(.1)))
-            if len(t) == 2 and t[0] == 0:
-                return self.point_at_t(t[1])
-            else:
-                return None
-        else:
-            return self.point_at_t(t[0])
+        return self._closest_point_for_roots(point, roots)
-- 
2.43.0


From 3edbdc04b868fa513145da1af91bceb2c95f42a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:34 +0000
Subject: [PATCH 052/121] fix: Ellipse2D.bounding_box: the one of a rotated
 ellipse did not contain it

---
 Patro/GeometryEngine/Conic.py | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 19d8809..d1e64b8 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -43,7 +43,6 @@ import numpy as np
 
 from Patro.Common.Math.Functions import sign # , epsilon_float
 from .Bezier import CubicBezier2D
-from .BoundingBox import bounding_box_from_points
 from .Line import Line2D
 from .Mixin import AngularDomainMixin, CenterMixin, AngularDomain
 from .Primitive import Primitive, Primitive2DMixin
@@ -575,22 +574,13 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
         if self._bounding_box is None:
             radius_x, radius_y = self._radius_x, self._radius_y
-            if self._angle == 0:
-                bounding_box = self._center.bounding_box
-                bounding_box.x.enlarge(radius_x)
-                bounding_box.y.enlarge(radius_y)
-                self._bounding_box = bounding_box
-            else:
-                angle_x = self._angle
-                angle_y = angle_x + 90
-                Vector2D = self.__vector_cls__
-                points = [self._center + offset for offset in (
-                    Vector2D.from_polar(angle_x,  radius_x),
-                    Vector2D.from_polar(angle_x, -radius_x),
-                    Vector2D.from_polar(angle_y,  radius_y),
-                    Vector2D.from_polar(angle_y, -radius_y),
-                )]
-                self._bounding_box = bounding_box_from_points(points)
+            angle = radians(self._angle)
+            c = cos(angle)
+            s = sin(angle)
+            bounding_box = self._center.bounding_box
+            bounding_box.x.enlarge(sqrt((radius_x * c)**2 + (radius_y * s)**2))
+            bounding_box.y.enlarge(sqrt((radius_x * s)**2 + (radius_y * c)**2))
+            self._bounding_box = bounding_box
 
         return self._bounding_box
 
-- 
2.43.0


From 3fcf987b92ac259f022728a3d1a3e8737e8bc3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:31 +0000
Subject: [PATCH 053/121] fix: Ellipse2D.distance_to_point: wrong when the
 radius along y is the largest

---
 Patro/GeometryEngine/Conic.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index d1e64b8..7e881f4 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -643,6 +643,11 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         y0, y1 = point
         e0, e1 = self._radius_x, self._radius_y
 
+        swap = e0 < e1
+        if swap:
+            y0, y1 = y1, y0
+            e0, e1 = e1, e0
+
         if y1 > 0:
             if  y0 > 0:
                 z0 = y0 / e0
@@ -677,6 +682,9 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
                 x1 = 0
                 distance = abs(y0 - e0)
 
+        if swap:
+            x0, x1 = x1, x0
+
         return distance, self.__vector_cls__(x0, x1)
 
     ##############################################
-- 
2.43.0


From 18b7639c0f2606a2d89a70d8e8324a9ab0104985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:59 +0000
Subject: [PATCH 054/121] fix: Ellipse2D.distance_to_point: division by zero
 for a point on an axis of a rotated ellipse

---
 Patro/GeometryEngine/Conic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 7e881f4..c462de3 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -648,7 +648,8 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
             y0, y1 = y1, y0
             e0, e1 = e1, e0
 
-        if y1 > 0:
+        # else the bisection divides by zero when y1 is just a rounding error, e.g. after a rotation
+        if y1 > 1e-12 * e1:
             if  y0 > 0:
                 z0 = y0 / e0
                 z1 = y1 / e1
-- 
2.43.0


From 4fb223128ac75be831bccf36c9cb0950dfdb6f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:33 +0000
Subject: [PATCH 055/121] fix: GraphicScene.update_rtree: a moved item was not
 indexed again when its geometry was read before the update

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index 7098946..fb1a692 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -221,7 +221,7 @@ class GraphicSceneScope:
     def update_rtree(self) -> None:
         for item in self._items.values():
             # an item is also clean when its geometry was only read
-            if item.dirty or id(item) not in self._item_bounding_box_cache:
+            if item.dirty or self._item_bounding_box_cache.get(id(item), None) != item.bounding_box.bounding_box:
                 self.update_rtree_item(item)
 
     ##############################################
-- 
2.43.0


From 4a7e51bc52cadd4dedb09adce87401f980149e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:16 +0000
Subject: [PATCH 056/121] fix: ReportlabPainter: the origin of the drawing was
 not scaled as the drawing, it was shifted on the page or out of it

---
 Patro/GraphicEngine/Painter/PdfPainter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/PdfPainter.py b/Patro/GraphicEngine/Painter/PdfPainter.py
index 498414f..0c8ef11 100644
--- a/Patro/GraphicEngine/Painter/PdfPainter.py
+++ b/Patro/GraphicEngine/Painter/PdfPainter.py
@@ -101,7 +101,9 @@ class ReportlabPainter(PdfPainterBase):
 
         bounding_box = scene.bounding_box
         # print(bounding_box, bounding_box.x.length, bounding_box.y.length)
-        self._canvas.translate(-bounding_box.x.inf*cm, -bounding_box.y.inf*cm)
+        # same scale as in cast_position
+        origin = Vector2D(bounding_box.x.inf, bounding_box.y.inf) * cm * .7
+        self._canvas.translate(-origin.x, -origin.y)
         self._canvas.translate(1*cm, 1*cm) # Fixme: margin
 
         self._canvas.setFont('Times-Roman', 20)
-- 
2.43.0


From 794190ccfb64d2e6c493bedaaf1524052cc44586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:21 +0000
Subject: [PATCH 057/121] fix: TexPainter: a landscape paper was ignored, the
 tiles did not fit in the page

---
 Patro/GraphicEngine/Painter/TexPainter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/TexPainter.py b/Patro/GraphicEngine/Painter/TexPainter.py
index d6b4b84..ad8fbe6 100644
--- a/Patro/GraphicEngine/Painter/TexPainter.py
+++ b/Patro/GraphicEngine/Painter/TexPainter.py
@@ -41,7 +41,7 @@ _preambule = r'''
 
 \usepackage[%
 paper=«0.paper_name»,%
-%landscape,
+«0.orientation»,%
 %includeheadfoot,%
 margin=«0.margin»mm,%
 headsep=0cm, footskip=0cm,%
@@ -82,6 +82,10 @@ class TexPainter(Painter):
     def paper_name(self):
         return self._paper.name.lower() + 'paper'
 
+    @property
+    def orientation(self):
+        return self._paper.orientation
+
     @property
     def margin(self):
         return self._paper.margin
-- 
2.43.0


From e68b3a08d38ad8fb2133646d3623ecbb5389e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:21 +0000
Subject: [PATCH 058/121] fix: TeX Document: a file name of three letters was
 truncated

---
 Patro/GraphicEngine/TeX/Document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/TeX/Document.py b/Patro/GraphicEngine/TeX/Document.py
index c510455..dc97a9e 100644
--- a/Patro/GraphicEngine/TeX/Document.py
+++ b/Patro/GraphicEngine/TeX/Document.py
@@ -43,7 +43,7 @@ class Document:
 
         # Fixme: Path, vs path
 
-        if (len(filename) - filename.rfind('.tex')) == 4:
+        if filename.endswith('.tex'):
             filename = filename[:-4]
 
         self._filename = filename
-- 
2.43.0


From 5411c4b0d915bc703c74c2ce2b5c0de727337080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:35 +0000
Subject: [PATCH 059/121] fix: QtPainter: an item without stroke colour, or a
 text, was painted with the pen of the previous item

---
 Patro/GraphicEngine/Painter/QtPainter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 48d5e61..a70b5a6 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -233,6 +233,7 @@ class QtPainter(Painter):
         if color is None or line_style is StrokeStyle.NoPen:
             # invisible item
             pen = QPen(Qt.NoPen)
+            self._painter.setPen(pen)
             # print('Warning Pen:', item, item.user_data, color, line_style)
             return None
         else:
@@ -468,6 +469,8 @@ class QtPainter(Painter):
         # height = font_metrics.height()
         # width = font_metrics.width(item.text)
 
+        color = QColor('red' if item.selected else 'black')
+        self._painter.setPen(QPen(color))
         self._painter.setFont(qfont)
         self._painter.drawText(position, item.text)
 
-- 
2.43.0


From 2d2f730eb65eb48a296f72403630819abe39ad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:35 +0000
Subject: [PATCH 060/121] fix: QtPainter: a filled item was stroked with its
 fill colour

---
 Patro/GraphicEngine/Painter/QtPainter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index a70b5a6..2a8a2ca 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -222,9 +222,9 @@ class QtPainter(Painter):
 
         fill_color = path_syle.fill_color
         if fill_color is not None:
-            color = QColor(str(fill_color))
-            color.setAlphaF(path_syle.fill_alpha)
-            self._painter.setBrush(color)
+            brush_color = QColor(str(fill_color))
+            brush_color.setAlphaF(path_syle.fill_alpha)
+            self._painter.setBrush(brush_color)
             # return None
         else:
             self._painter.setBrush(Qt.NoBrush)
-- 
2.43.0


From b8ca291a551c8193e9e5cb5edffaf109b512a1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:35 +0000
Subject: [PATCH 061/121] =?UTF-8?q?fix:=20QtPainter:=20a=20path=20with=20a?=
 =?UTF-8?q?=20B=C3=A9zier=20segment=20could=20not=20be=20painted?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GraphicEngine/Painter/QtPainter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 2a8a2ca..9dfa0ae 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -443,12 +443,12 @@ class QtPainter(Painter):
                 path.lineTo(position)
             else:
                 if isinstance(segment, QuadraticSegment):
-                    method = path.quadraticTo
+                    method = path.quadTo
                 elif isinstance(segment, CubicSegment):
                     method = path.cubicTo
                 else:
                     raise NotImplementedError
-                positions = self.cast_position(segment.positions)
+                positions = self.cast_item_positions(segment)
                 method(*positions)
 
         # if item.it_closed:
-- 
2.43.0


From b2acd04b5715a894a36164b0cb2c1d2d419bace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:35 +0000
Subject: [PATCH 062/121] =?UTF-8?q?fix:=20QtPainter:=20the=20transformatio?=
 =?UTF-8?q?n=20of=20the=20scene=20was=20applied=20twice=20to=20a=20quadrat?=
 =?UTF-8?q?ic=20B=C3=A9zier=20curve?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 Patro/GraphicEngine/Painter/QtPainter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 9dfa0ae..b2a04f8 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -380,7 +380,8 @@ class QtPainter(Painter):
 
     def paint_QuadraticBezierItem(self, item):
 
-        vertices = [self.cast_position(position) for position in item.cubic_positions]
+        # these positions are yet transformed
+        vertices = [self.scene_to_viewport(position) for position in item.cubic_positions]
         self._paint_cubic(item, vertices)
 
     ##############################################
-- 
2.43.0


From aa8259c550ffdf5038433371d7d282a63397ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:35 +0000
Subject: [PATCH 063/121] fix: QuadraticBezierItem: the cubic positions
 remained the old ones when a coordinate moved

---
 Patro/GraphicEngine/GraphicScene/GraphicItem.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index c63fbdd..86a20b0 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -391,10 +391,8 @@ class QuadraticBezierItem(ThreePositionMixin, PathStyleItemMixin):
 
     @property
     def cubic_positions(self) -> None:
-        if not(hasattr(self, '_cubic_points')):
-            cubic = self.geometry.to_cubic()
-            self._cubic_points = list(cubic.points)
-        return self._cubic_points
+        cubic = self.geometry.to_cubic()
+        return list(cubic.points)
 
 ####################################################################################################
 
-- 
2.43.0


From 63ae6c6016fccb3574f3063504151151a34f1906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:35 +0000
Subject: [PATCH 064/121] fix: ViewportArea: a scene set while the viewport was
 empty failed or was never visible

---
 Patro/GraphicEngine/Painter/QtPainter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index b2a04f8..7387f8f 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -492,6 +492,7 @@ class ViewportArea:
         # self._width = None
         # self._height = None
         self._viewport_size = None
+        self._fit_pending = False # scene is not yet fitted because the viewport was empty
 
         self._scale = 1
         self._center = None
@@ -528,7 +529,9 @@ class ViewportArea:
         # self._width = geometry.width()
         # self._height = geometry.height()
         self._viewport_size = self._to_np_array(geometry.width(), geometry.height())
-        if self:
+        if self._fit_pending:
+            self.fit_scene()
+        elif self:
             self._update_viewport_area()
 
     ##############################################
@@ -624,6 +627,9 @@ class ViewportArea:
 
         # Fixme: AttributeError: 'NoneType' object has no attribute 'center'
         if self:
+            self._fit_pending = self._viewport_size is None or not self._viewport_size.all()
+            if self._fit_pending:
+                return
             center = self._to_np_array(self.scene_area.center)
             scale, axis = self._compute_scale_to_fit_scene()
             self.zoom_at(center, scale)
-- 
2.43.0


From 5cc7d24a40f47d7c90d5b21e250c8dfbd8b5c72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:06 +0000
Subject: [PATCH 065/121] fix: PathItem: a scene with a path item could not be
 indexed, no item of the scene could be picked

---
 Patro/GeometryEngine/Path.py                    | 11 +++++++++++
 Patro/GraphicEngine/GraphicScene/GraphicItem.py | 16 ++++++++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 210de7a..926926c 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -39,6 +39,7 @@ import logging
 import math
 
 from Patro.Common.Math.Functions import sign
+from .BoundingBox import bounding_box_from_points
 from .Primitive import Primitive, Primitive1PMixin, Primitive2DMixin, PointPrimitive
 from .Bezier import QuadraticBezier2D, CubicBezier2D
 from .Conic import AngularDomain, Circle2D, Ellipse2D
@@ -997,10 +998,20 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
                 bounding_box = interval
             else:
                 bounding_box |= interval
+        if bounding_box is None:
+            return bounding_box_from_points((self._p0,))
         return bounding_box
 
     ##############################################
 
+    def distance_to_point(self, point):
+        if self._parts:
+            return min(part.geometry.distance_to_point(point) for part in self._parts)
+        else:
+            return (self._p0 - point).magnitude
+
+    ##############################################
+
     def move_to(self, point):
         self.p0 = point
 
diff --git a/Patro/GraphicEngine/GraphicScene/GraphicItem.py b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
index 86a20b0..a55028c 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicItem.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicItem.py
@@ -431,8 +431,20 @@ class PathItem(PositionMixin, PathStyleItemMixin):
     ##############################################
 
     def get_geometry(self) -> Path2D:
-        position = self.casted_position
-        return Path2D(position) # Fixme: !!!
+        cast = self._scene.cast_position
+        path = Path2D(self.casted_position)
+        for segment in self._segments:
+            if isinstance(segment, LinearSegment):
+                path.line_to(cast(segment.position), absolute=True)
+            else:
+                positions = [cast(position) for position in segment.positions]
+                if isinstance(segment, QuadraticSegment):
+                    path.quadratic_to(*positions, absolute=True)
+                elif isinstance(segment, CubicSegment):
+                    path.cubic_to(*positions, absolute=True)
+                else:
+                    raise NotImplementedError
+        return path
 
     ##############################################
 
-- 
2.43.0


From 17ac88da82195a712d0ab13e3e9314efcc419564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:33 +0000
Subject: [PATCH 066/121] fix: QtQuickPaintedSceneItem: an empty scene could
 not be zoomed, panned or fitted

---
 Patro/GraphicEngine/Painter/QtPainter.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/QtPainter.py b/Patro/GraphicEngine/Painter/QtPainter.py
index 7387f8f..31da789 100644
--- a/Patro/GraphicEngine/Painter/QtPainter.py
+++ b/Patro/GraphicEngine/Painter/QtPainter.py
@@ -774,7 +774,7 @@ class QtQuickPaintedSceneItem(QQuickPaintedItem, QtPainter):
 
     @Slot(QPointF, result=str)
     def format_coordinate(self, position):
-        if bool(self._scene):
+        if self._scene is not None:
             scene_position = self._viewport_area.viewport_to_scene(position)
             return '{:.3f}, {:.3f}'.format(scene_position[0], scene_position[1])
         else:
@@ -784,7 +784,7 @@ class QtQuickPaintedSceneItem(QQuickPaintedItem, QtPainter):
 
     @Slot(float)
     def zoom_at_center(self, zoom):
-        if bool(self._scene):
+        if self._scene is not None:
             self._viewport_area.zoom_at(self._viewport_area.center, zoom)
             self.update()
 
@@ -793,7 +793,7 @@ class QtQuickPaintedSceneItem(QQuickPaintedItem, QtPainter):
     @Slot(QPointF, float)
     def zoom_at(self, position, zoom):
         # print('zoom_at', position, zoom)
-        if bool(self._scene):
+        if self._scene is not None:
             scene_position = self._viewport_area.viewport_to_scene(position)
             self._viewport_area.zoom_at(scene_position, zoom)
             self.update()
@@ -802,7 +802,7 @@ class QtQuickPaintedSceneItem(QQuickPaintedItem, QtPainter):
 
     @Slot()
     def fit_scene(self):
-        if bool(self._scene):
+        if self._scene is not None:
             self._viewport_area.fit_scene()
             self.update()
 
@@ -810,7 +810,7 @@ class QtQuickPaintedSceneItem(QQuickPaintedItem, QtPainter):
 
     @Slot(QPointF)
     def pan(self, dxy):
-        if bool(self._scene):
+        if self._scene is not None:
             position = self._viewport_area.center + self._viewport_area.pan_delta_to_scene(dxy)
             self._viewport_area.zoom_at(position, self._viewport_area.scale_px_by_mm)
             self.update()
@@ -820,7 +820,7 @@ class QtQuickPaintedSceneItem(QQuickPaintedItem, QtPainter):
     @Slot(QPointF)
     def item_at(self, position, radius_px=10):
 
-        if not bool(self._scene):
+        if self._scene is None:
             return
 
         self._scene.update_rtree()
-- 
2.43.0


From 6aa29e0374f3679d91a8c17da793c0e6400fbed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:23 +0000
Subject: [PATCH 067/121] fix: Circle2D, Ellipse2D: a rejected transformation
 moved the center

---
 Patro/GeometryEngine/Conic.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index c462de3..68d6043 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -139,10 +139,13 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def apply_transformation(self, transformation):
-        self._center = transformation * self._center
         # Fixme: shear -> ellipse
-        if self._radius is not None:
-            self._radius = transformation * self._radius
+        # the transformation is rejected before the circle is changed
+        radius = self._radius
+        if radius is not None:
+            radius = transformation * radius
+        self._center = transformation * self._center
+        self._radius = radius
 
     ##############################################
 
@@ -459,9 +462,12 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def apply_transformation(self, transformation):
+        # the transformation is rejected before the ellipse is changed
+        radius_x = transformation * self._radius_x
+        radius_y = transformation * self._radius_y
         self._center = transformation * self._center
-        self._radius_x = transformation * self._radius_x
-        self._radius_y = transformation * self._radius_y
+        self._radius_x = radius_x
+        self._radius_y = radius_y
         self._bounding_box = None
 
     ##############################################
-- 
2.43.0


From 14a7d6378ebba1d41f080e8ed0461579358c6c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:27 +0000
Subject: [PATCH 068/121] fix: Polygon2D.recenter failed unless the barycenter
 was queried before

---
 Patro/GeometryEngine/Polygon.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 313838d..6828351 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -411,9 +411,8 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         """Recenter the polygon to the barycenter."""
         # if self._centred:
         #     return
-        barycenter = self._barycenter
-        for point in self._points:
-            point -= barycenter
+        barycenter = self.barycenter
+        self._set_points([point - barycenter for point in self._points])
         # self._centred = True
 
     ##############################################
-- 
2.43.0


From b2436472da2f19ff3bb493251e9efe3c8159b20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:27 +0000
Subject: [PATCH 069/121] fix: Polygon2D: a transformed polygon had the edges,
 area, barycenter ... of the original one

---
 Patro/GeometryEngine/Polygon.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 6828351..cb9e143 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -113,6 +113,18 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
     ##############################################
 
+    def _set_points(self, points):
+        super()._set_points(points)
+        # what was computed for the previous points
+        self._edges = None
+        self._is_simple = None
+        self._is_convex = None
+        self._area = None
+        self._is_clockwise = None
+        self._major_axis = None
+
+    ##############################################
+
     @property
     def is_triangle(self):
         return self.number_of_points == 3
-- 
2.43.0


From 717fec08e10a52127d99d00414c6a6e4750939b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:27 +0000
Subject: [PATCH 070/121] fix: Polyline2D: a transformed polyline had the edges
 and the length of the original one

---
 Patro/GeometryEngine/Polyline.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Patro/GeometryEngine/Polyline.py b/Patro/GeometryEngine/Polyline.py
index 2d7f110..2d93a7d 100644
--- a/Patro/GeometryEngine/Polyline.py
+++ b/Patro/GeometryEngine/Polyline.py
@@ -50,6 +50,12 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
     ##############################################
 
+    def _set_points(self, points):
+        super()._set_points(points)
+        self._edges = None
+
+    ##############################################
+
     @property
     def edges(self):
 
-- 
2.43.0


From 67f4276a4fa92b475559399cbd21ae805dd327c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:27 +0000
Subject: [PATCH 071/121] fix: Polygon2D: an interrupted query of the area or
 of the axis left a polygon without barycenter or axis

---
 Patro/GeometryEngine/Polygon.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index cb9e143..682ff78 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -278,8 +278,8 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
         if area == 0:
             # print('Null area')
-            self._area = 0
             self._barycenter = self.start_point
+            self._area = 0 # last, see _check_area
         else:
             factor = 1 / (6*area)
             x = factor * np.sum((xi + xi1) * cross)
@@ -287,9 +287,9 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
             # area of a convex polygon is defined to be positive if the points are arranged in a
             # counterclockwise order, and negative if they are in clockwise order (Beyer 1987).
-            self._area = abs(area)
             self._area_sign = sign(area)
             self._barycenter = self.__vector_cls__(x, y)
+            self._area = abs(area) # last, see _check_area
 
     ##############################################
 
@@ -367,14 +367,16 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
             self._major_axis_angle = - math.degrees(math.atan(v1y/vx))
 
-        self._major_axis = 4 * math.sqrt(math.fabs(lambda1))
+        major_axis = 4 * math.sqrt(math.fabs(lambda1))
         self._minor_axis = 4 * math.sqrt(math.fabs(lambda2))
 
         if self._minor_axis != 0:
-            self._axis_ratio = self._major_axis / self._minor_axis
+            self._axis_ratio = major_axis / self._minor_axis
         else:
             self._axis_ratio = 0
 
+        self._major_axis = major_axis # last, see _check_moment
+
     ##############################################
 
     def _check_area(self):
-- 
2.43.0


From 539c5070579e01ae351141e37b5ab4a3d78645c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:06 +0000
Subject: [PATCH 072/121] fix: Ellipse2D: the bounding box was the one of a
 previous center, radius or angle, or the union with another box

---
 Patro/GeometryEngine/Conic.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 68d6043..606dad5 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -447,8 +447,6 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         self.angle = angle
         self.domain = domain
 
-        self._bounding_box = None
-
     ##############################################
 
     def clone(self):
@@ -468,7 +466,6 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
         self._center = transformation * self._center
         self._radius_x = radius_x
         self._radius_y = radius_y
-        self._bounding_box = None
 
     ##############################################
 
@@ -578,17 +575,15 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     @property
     def bounding_box(self):
 
-        if self._bounding_box is None:
-            radius_x, radius_y = self._radius_x, self._radius_y
-            angle = radians(self._angle)
-            c = cos(angle)
-            s = sin(angle)
-            bounding_box = self._center.bounding_box
-            bounding_box.x.enlarge(sqrt((radius_x * c)**2 + (radius_y * s)**2))
-            bounding_box.y.enlarge(sqrt((radius_x * s)**2 + (radius_y * c)**2))
-            self._bounding_box = bounding_box
-
-        return self._bounding_box
+        radius_x, radius_y = self._radius_x, self._radius_y
+        angle = radians(self._angle)
+        c = cos(angle)
+        s = sin(angle)
+        bounding_box = self._center.bounding_box
+        bounding_box.x.enlarge(sqrt((radius_x * c)**2 + (radius_y * s)**2))
+        bounding_box.y.enlarge(sqrt((radius_x * s)**2 + (radius_y * c)**2))
+
+        return bounding_box
 
     ##############################################
 
-- 
2.43.0


From 3b354b88fbc4daf70d409571acedaadeea554fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:06 +0000
Subject: [PATCH 073/121] fix: Circle2D, Ellipse2D: the angular domain was
 shared with the clones

---
 Patro/GeometryEngine/Conic.py | 4 ++--
 Patro/GeometryEngine/Mixin.py | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 606dad5..67fdb7c 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -134,7 +134,7 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
     ##############################################
 
     def clone(self):
-        return self.__class__(self._center, self._radius, self._domain)
+        return self.__class__(self._center, self._radius, self._clone_domain())
 
     ##############################################
 
@@ -454,7 +454,7 @@ class Ellipse2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
             self._center,
             self._radius_x, self._radius_y,
             self._angle,
-            self._domain,
+            self._clone_domain(),
         )
 
     ##############################################
diff --git a/Patro/GeometryEngine/Mixin.py b/Patro/GeometryEngine/Mixin.py
index c7abe2d..a453f0a 100644
--- a/Patro/GeometryEngine/Mixin.py
+++ b/Patro/GeometryEngine/Mixin.py
@@ -57,7 +57,7 @@ class AngularDomain:
 
     ##############################################
 
-    def __clone__(self):
+    def clone(self):
         return self.__class__(self._start, self._stop)
 
     ##############################################
@@ -164,6 +164,11 @@ class AngularDomainMixin:
 
     ##############################################
 
+    def _clone_domain(self):
+        return self._domain.clone() if self._domain is not None else None
+
+    ##############################################
+
     @property
     def is_closed(self):
         return self._domain is None
-- 
2.43.0


From ea81c0b782ae14d8206924af3383898adcd12553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:15 +0000
Subject: [PATCH 074/121] fix: Polygon2D.is_simple: rounding errors made any
 polygon self-intersecting

---
 Patro/GeometryEngine/Polygon.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 682ff78..9504d1f 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -165,11 +165,8 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
                     if intersect:
                         common_vertex = edge1.share_vertex_with(edge2)
                         if common_vertex is not None:
-                            if common_vertex == intersection:
-                                continue
-                            else:
-                                # degenerated case where a vertex lie on an edge
-                                return False
+                            # the intersection is this vertex, but for rounding errors
+                            continue
                         else:
                             # two edge intersect
                             # intersections.append(intersection)
-- 
2.43.0


From eab7b3a3b20da41ccfdb2e307eb21a30698ce3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:15 +0000
Subject: [PATCH 075/121] fix: Polygon2D: the barycenter and the axis of a
 self-intersecting polygon raised an error, unlike the area

---
 Patro/GeometryEngine/Polygon.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 9504d1f..6b40fb1 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -104,12 +104,12 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         self._area = None
         self._is_clockwise = is_clockwise
         # self._cross = None
-        # self._barycenter = None
+        self._barycenter = None
 
-        # self._major_axis_angle = None
+        self._major_axis_angle = None
         self._major_axis = None
-        # self._minor_axis = None
-        # self._axis_ratio = None
+        self._minor_axis = None
+        self._axis_ratio = None
 
     ##############################################
 
@@ -121,7 +121,11 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         self._is_convex = None
         self._area = None
         self._is_clockwise = None
+        self._barycenter = None
+        self._major_axis_angle = None
         self._major_axis = None
+        self._minor_axis = None
+        self._axis_ratio = None
 
     ##############################################
 
@@ -275,6 +279,7 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
         if area == 0:
             # print('Null area')
+            self._area_sign = 0
             self._barycenter = self.start_point
             self._area = 0 # last, see _check_area
         else:
-- 
2.43.0


From a36d11fe5372b3391b6ec7b18d9140aa111279bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:36 +0000
Subject: [PATCH 076/121] fix: Polygon2D.convex_hull: the hull of a convex
 polygon was another one once is_convex was queried

---
 Patro/GeometryEngine/Polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index 6b40fb1..aed349f 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -223,7 +223,7 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
 
     def convex_hull(self):
 
-        if self._is_convex:
+        if self.is_convex:
             return self
         else:
             return convex_hull(self._points)
-- 
2.43.0


From 013ad82ceb3c967b77953f6e68b4276436aab551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:08 +0000
Subject: [PATCH 077/121] fix: BSpline2D could not be cloned, nor transformed
 as a clone

---
 Patro/GeometryEngine/Spline.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Patro/GeometryEngine/Spline.py b/Patro/GeometryEngine/Spline.py
index c7aff79..d03eae2 100644
--- a/Patro/GeometryEngine/Spline.py
+++ b/Patro/GeometryEngine/Spline.py
@@ -212,6 +212,12 @@ class BSpline2D(Primitive2DMixin, PrimitiveNP):
 
     ##############################################
 
+    def clone(self):
+        knots = None if self._uniform else self._knots
+        return self.__class__(self._points, self._degree, self._closed, knots)
+
+    ##############################################
+
     @property
     def degree(self):
         return self._degree
-- 
2.43.0


From 8684e7eae1864b42a02de55845080a27f3d143fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:03 +0000
Subject: [PATCH 078/121] fix: Transformation2D: composing transformations of
 different types raised an AttributeError

---
 Patro/GeometryEngine/Transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index 83e4cdb..f2ae4b5 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -278,7 +278,7 @@ class Transformation2D(Transformation):
     ##############################################
 
     def _check_type(self):
-        return self._check_matrix_type(self.to_list())
+        return self.check_matrix_type(self.to_list())
 
     ##############################################
 
-- 
2.43.0


From eebfc4e08253f76f48df71f0f85af1be3dcef78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:03 +0000
Subject: [PATCH 079/121] fix: AffineTransformation2D: a composed
 transformation had no type and a wrong scale factor

---
 Patro/GeometryEngine/Transformation.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index f2ae4b5..8a9e1ee 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -37,7 +37,7 @@ __all__ = [
 ####################################################################################################
 
 from enum import Enum, auto
-from math import sin, cos, radians, degrees
+from math import sin, cos, radians, degrees, sqrt
 
 import numpy as np
 
@@ -178,6 +178,20 @@ class Transformation:
 
     #######################################
 
+    def _scale_factor(self):
+
+        """Return the scale factor of the lengths, raise ValueError if it depends on the direction."""
+
+        matrix = self._m[:self.__dimension__,:self.__dimension__]
+        gram_matrix = np.matmul(np.transpose(matrix), matrix)
+        square_factor = np.trace(gram_matrix) / self.__dimension__
+        delta = np.abs(gram_matrix - square_factor * np.identity(self.__dimension__)).max()
+        if delta > 1e-9 * square_factor:
+            raise ValueError('Transformation is sheared')
+        return float(sqrt(square_factor))
+
+    #######################################
+
     def __mul__(self, obj):
 
         """Return self * obj composition."""
@@ -196,7 +210,7 @@ class Transformation:
             elif self._type not in (TransformationType.Shear, TransformationType.Generic):
                 return abs(self._m[0,0]) * obj
             else:
-                raise ValueError('Transformation is sheared')
+                return self._scale_factor() * obj
         else:
             raise ValueError
 
@@ -370,7 +384,12 @@ class AffineTransformation2D(AffineTransformation):
 
     def _check_type(self):
         matrix_type = Transformation2D.check_matrix_type(self.matrix_part.flat)
-        # Fixme: translation etc. !!!
+        if not self.translation_part.any():
+            return matrix_type
+        elif matrix_type == TransformationType.Identity:
+            return TransformationType.Translation
+        else:
+            return TransformationType.Generic
 
     ##############################################
 
-- 
2.43.0


From 30aa37f64fdc26e6404b19e6e76a2d3a88ea74f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:19 +0000
Subject: [PATCH 080/121] fix: Transformation: an affine transformation could
 not be copied, and was accepted as a linear one

---
 Patro/GeometryEngine/Transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Transformation.py b/Patro/GeometryEngine/Transformation.py
index 8a9e1ee..e868227 100644
--- a/Patro/GeometryEngine/Transformation.py
+++ b/Patro/GeometryEngine/Transformation.py
@@ -145,7 +145,7 @@ class Transformation:
     ##############################################
 
     def same_dimension(self, other):
-        return self.__size__ == other.dimension
+        return self.__size__ == other.__size__
 
     ##############################################
 
-- 
2.43.0


From 4ac7d2cfe747edc93517b7af58b1f90265a8a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:46 +0000
Subject: [PATCH 081/121] fix: Polyline2D.length raised an AttributeError

---
 Patro/GeometryEngine/Polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Polyline.py b/Patro/GeometryEngine/Polyline.py
index 2d93a7d..fa32e72 100644
--- a/Patro/GeometryEngine/Polyline.py
+++ b/Patro/GeometryEngine/Polyline.py
@@ -69,7 +69,7 @@ class Polyline2D(Primitive2DMixin, PrimitiveNP):
 
     @property
     def length(self):
-        return sum([edge.magnitude for edge in self.edges])
+        return sum([edge.length for edge in self.edges])
 
     ##############################################
 
-- 
2.43.0


From 8f01a13faf6961189d0a836d7e6f2c9107822936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:46 +0000
Subject: [PATCH 082/121] fix: Triangle2D: the perimeter and the tests of its
 shape raised a TypeError

---
 Patro/GeometryEngine/Triangle.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/Patro/GeometryEngine/Triangle.py b/Patro/GeometryEngine/Triangle.py
index f27acdf..b18f8ac 100644
--- a/Patro/GeometryEngine/Triangle.py
+++ b/Patro/GeometryEngine/Triangle.py
@@ -151,19 +151,18 @@ class Triangle2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PolygonMixin
 
     def _cache_length(self):
 
-        if not hasattr(self._p10):
-            self._p10 = (self._p1 - self._p0).magnitude
-            self._p21 = (self._p2 - self._p1).magnitude
-            self._p02 = (self._p0 - self._p2).magnitude
+        # always computed, since the points can be changed
+        self._p10 = (self._p1 - self._p0).magnitude
+        self._p21 = (self._p2 - self._p1).magnitude
+        self._p02 = (self._p0 - self._p2).magnitude
 
     ##############################################
 
     def _cache_angle(self):
 
-        if not hasattr(self._a10):
-            self._a10 = (self._p1 - self._p0).orientation
-            self._a21 = (self._p2 - self._p1).orientation
-            self._a02 = (self._p0 - self._p2).orientation
+        self._a10 = (self._p1 - self._p0).orientation
+        self._a21 = (self._p2 - self._p1).orientation
+        self._a02 = (self._p0 - self._p2).orientation
 
     ##############################################
 
-- 
2.43.0


From d6e02b2b2bac2b27e78bb2d609060a908f658c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:46 +0000
Subject: [PATCH 083/121] fix: Circle2D.perimeter: the test of the domain was
 inverted

---
 Patro/GeometryEngine/Conic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Conic.py b/Patro/GeometryEngine/Conic.py
index 67fdb7c..bd3f07f 100644
--- a/Patro/GeometryEngine/Conic.py
+++ b/Patro/GeometryEngine/Conic.py
@@ -174,7 +174,7 @@ class Circle2D(Primitive2DMixin, CenterMixin, AngularDomainMixin, Primitive):
 
     @property
     def perimeter(self):
-        if self._domain is not None:
+        if self._domain is None:
             return 2*pi * self._radius
         else:
             return self._radius * self._domain.length
-- 
2.43.0


From 7de10e7014e38a7372081aac4159ea1f589a30ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:46 +0000
Subject: [PATCH 084/121] fix: Polygon2D.is_point_inside raised an
 AttributeError

---
 Patro/GeometryEngine/Polygon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Polygon.py b/Patro/GeometryEngine/Polygon.py
index aed349f..dda28ff 100644
--- a/Patro/GeometryEngine/Polygon.py
+++ b/Patro/GeometryEngine/Polygon.py
@@ -497,14 +497,14 @@ class Polygon2D(Primitive2DMixin, ClosedPrimitiveMixin, PathMixin, PrimitiveNP):
         for edge in self.edges:
             if edge.p0.y <= y:
                 if edge.p1.y > y: # upward crossing
-                    if edge.is_left(point):
+                    if edge.left_of(point):
                         winding_number += 1
             else:
                 if edge.p1.y <= y: #  downward crossing
-                    if edge.is_right(point):
+                    if edge.right_of(point):
                         winding_number -= 1
 
-        return winding_number > 0
+        return winding_number != 0 # negative for a clockwise polygon
 
     ##############################################
 
-- 
2.43.0


From 70c367b808b2089ff25b62d44c2810b4bb640525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:46 +0000
Subject: [PATCH 085/121] fix: Primitive: point_array of polygons, polylines
 and splines, paths of triangles, raised a TypeError

---
 Patro/GeometryEngine/Primitive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/GeometryEngine/Primitive.py b/Patro/GeometryEngine/Primitive.py
index 0ee1117..2ccfb4a 100644
--- a/Patro/GeometryEngine/Primitive.py
+++ b/Patro/GeometryEngine/Primitive.py
@@ -212,7 +212,7 @@ class PointPrimitive(Primitive):
         # if self._point_array is None:
         #     self._point_array = np.array(list(self.points)).transpose()
         # return self._point_array
-        return np.array(self.points).transpose()
+        return np.array(tuple(self.points)).transpose() # points can be an iterator
 
     ##############################################
 
@@ -536,7 +536,7 @@ class Primitive3P(Primitive2P):
 
     def iter_from_second_point(self):
         # Fixme: share code ???
-        return iter(self._p1, self._p2)
+        return iter((self._p1, self._p2))
 
     ##############################################
 
@@ -588,7 +588,7 @@ class Primitive4P(Primitive3P):
         return iter((self._p3, self._p2, self._p1, self._p0))
 
     def iter_from_second_point(self):
-        return iter(self._p1, self._p2, self._p3)
+        return iter((self._p1, self._p2, self._p3))
 
     ##############################################
 
-- 
2.43.0


From 85c0c3ff2d60ece5672e924ffbdda990132aa516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:06 +0000
Subject: [PATCH 086/121] fix: Path2D: a null radius of a corner raised a
 ZeroDivisionError

---
 Patro/GeometryEngine/Path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 926926c..91bde70 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -311,7 +311,7 @@ class LinearSegment(PathPart):
         if value is not None:
             value = abs(float(value))
             if value == 0:
-                radius = None
+                value = None
         self._radius = value
 
     ##############################################
-- 
2.43.0


From f5f84011bbee473d3d39722f1bc15cdf2b7c4913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:06 +0000
Subject: [PATCH 087/121] fix: Path2D: a path could not be cloned, unless it
 had neither segments to a point nor cubic curves

---
 Patro/GeometryEngine/Path.py | 37 +++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 91bde70..84137d0 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -267,6 +267,18 @@ class LinearSegment(PathPart):
 
     ##############################################
 
+    @property
+    def _corner_radius(self):
+        # the radius at the closure is set by close()
+        return None if self._start_bulge else self._radius
+
+    def _clone_start_bulge(self, obj):
+        if self._start_bulge:
+            obj.close(self._radius)
+        return obj
+
+    ##############################################
+
     @property
     def prev_part(self):
         if self._start_bulge:
@@ -419,17 +431,8 @@ class PathSegment(OnePointMixin, LinearSegment):
     ##############################################
 
     def clone(self, path):
-
-        # Fixme: check
-        if obj._start_bulge:
-            radius = None
-        else:
-            radius = self._radius
-        obj = self.__class__(path, self._index, self._point, radius, self._absolute, self._closing)
-        if obj._start_bulge:
-            self.close(self._radius)
-
-        return obj
+        obj = self.__class__(path, self._index, self._point, self._corner_radius, self._absolute, self._closing)
+        return self._clone_start_bulge(obj)
 
     ##############################################
 
@@ -512,7 +515,8 @@ class AbsoluteHorizontalSegment(AbsoluteHVSegment):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._x, self._radius)
+        obj = self.__class__(path, self._index, self._x, self._corner_radius)
+        return self._clone_start_bulge(obj)
 
     ##############################################
 
@@ -550,7 +554,8 @@ class AbsoluteVerticalSegment(AbsoluteHVSegment):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._y, self._radius)
+        obj = self.__class__(path, self._index, self._y, self._corner_radius)
+        return self._clone_start_bulge(obj)
 
     ##############################################
 
@@ -588,7 +593,8 @@ class DirectionalSegment(DirectionalSegmentMixin):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._length, self._radius)
+        obj = self.__class__(path, self._index, self._length, self._corner_radius)
+        return self._clone_start_bulge(obj)
 
     ##############################################
 
@@ -725,7 +731,7 @@ class CubicBezierSegment(PathPart, ThreePointMixin):
     ##############################################
 
     def clone(self, path):
-        return self.__class__(path, self._index, self._point1, self._point2, self._point3, absolute)
+        return self.__class__(path, self._index, self._point1, self._point2, self._point3, self._absolute)
 
     ##############################################
 
@@ -905,6 +911,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
         parts = obj._parts
         for part in self._parts:
             parts.append(part.clone(obj))
+        obj._is_closed = self._is_closed
 
         return obj
 
-- 
2.43.0


From 5808ce47739d012d49252cf961cde3ae01116b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:06 +0000
Subject: [PATCH 088/121] fix: Path2D: the corners of a path which was changed
 or transformed were the ones of the previous path

---
 Patro/GeometryEngine/Path.py | 71 ++++++++++++------------------------
 1 file changed, 23 insertions(+), 48 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 84137d0..57168b7 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -237,32 +237,18 @@ class LinearSegment(PathPart):
 
         super().__init__(path, index)
 
-        self._bissector = None
-        self._direction = None
-
         self._start_bulge = False
         self._closing = bool(closing)
         self.radius = radius
         if self._radius is not None:
             if not isinstance(self.prev_part, LinearSegment):
                 raise ValueError('Previous path segment must be linear')
-            self._reset_cache()
-
-    ##############################################
-
-    def _reset_cache(self):
-
-        self._bulge_angle = None
-        self._bulge_center = None
-        self._start_bulge_point = None
-        self._stop_bulge_point = None
 
     ##############################################
 
     def close(self, radius):
         """Set the bulge radius at the closure"""
         self.radius = radius
-        self._reset_cache()
         self._start_bulge = True
 
     ##############################################
@@ -328,35 +314,32 @@ class LinearSegment(PathPart):
 
     ##############################################
 
+    # Note: the direction and the bulge depend on the previous part and on the start point of the path,
+    #       thus they cannot be cached
+
     @property
     def direction(self):
-        if self._direction is None:
-            self._direction = (self.stop_point - self.start_point).normalise()
-        return self._direction
+        return (self.stop_point - self.start_point).normalise()
 
     @property
     def bissector(self):
         if self._radius is None:
             return None
         else:
-            if self._bissector is None:
-                # self._bissector = (self.prev_part.direction + self.direction).normalise().normal
-                self._bissector = (self.direction - self.prev_part.direction).normalise()
-            return self._bissector
+            # (self.prev_part.direction + self.direction).normalise().normal
+            return (self.direction - self.prev_part.direction).normalise()
 
     ##############################################
 
     @property
     def bulge_angle_rad(self):
-        if self._bulge_angle is None:
-            # Fixme: rad vs degree
-            angle = self.direction.angle_with(self.prev_part.direction)
-            if angle >= 0:
-                angle = 180 - angle
-            else:
-                angle = -(180 + angle)
-            self._bulge_angle = math.radians(angle)
-        return self._bulge_angle
+        # Fixme: rad vs degree
+        angle = self.direction.angle_with(self.prev_part.direction)
+        if angle >= 0:
+            angle = 180 - angle
+        else:
+            angle = -(180 + angle)
+        return math.radians(angle)
 
     @property
     def bulge_angle(self):
@@ -370,30 +353,24 @@ class LinearSegment(PathPart):
 
     @property
     def bulge_center(self):
-        if self._bulge_center is None:
-            offset = self.bissector * self._radius / math.sin(abs(self.half_bulge_angle))
-            self._bulge_center = self.start_point + offset
-            # Note: -offset create external loop
-        return self._bulge_center
+        offset = self.bissector * self._radius / math.sin(abs(self.half_bulge_angle))
+        # Note: -offset create external loop
+        return self.start_point + offset
 
     ##############################################
 
     @property
     def bulge_start_point(self):
-        if self._start_bulge_point is None:
-            angle = self.half_bulge_angle
-            offset = self.prev_part.direction * self._radius / math.tan(angle)
-            self._start_bulge_point = self.start_point - sign(angle) *offset
-            # Note: -offset create internal loop
-        return self._start_bulge_point
+        angle = self.half_bulge_angle
+        offset = self.prev_part.direction * self._radius / math.tan(angle)
+        # Note: -offset create internal loop
+        return self.start_point - sign(angle) *offset
 
     @property
     def bulge_stop_point(self):
-        if self._stop_bulge_point is None:
-            angle = self.half_bulge_angle
-            offset = self.direction * self._radius / math.tan(self.half_bulge_angle)
-            self._stop_bulge_point = self.start_point + sign(angle) * offset
-        return self._stop_bulge_point
+        angle = self.half_bulge_angle
+        offset = self.direction * self._radius / math.tan(angle)
+        return self.start_point + sign(angle) * offset
 
     ##############################################
 
@@ -972,8 +949,6 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
         for part in self._parts:
             # print(part)
-            if isinstance(part, PathSegment):
-                part._reset_cache()
             if isinstance(part, DirectionalSegmentMixin):
                 # Since a rotation will change the direction
                 # DirectionalSegment must be casted to PathSegment
-- 
2.43.0


From 54887cdc233f338cc80c14c59c261bedaea70722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:06 +0000
Subject: [PATCH 089/121] fix: Path2D: an absolute horizontal or vertical
 segment went to the axis

---
 Patro/GeometryEngine/Path.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 57168b7..26b4df7 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -1001,8 +1001,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     def horizontal_to(self, length, radius=None, absolute=False):
         if absolute:
-            return self._add_part(PathSegment, self.__vector_cls__(length, 0), radius,
-                                  absolute=True)
+            return self.absolute_horizontal_to(length, radius)
         else:
             return self._add_part(HorizontalSegment, length, radius)
 
@@ -1010,8 +1009,7 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
     def vertical_to(self, length, radius=None, absolute=False):
         if absolute:
-            return self._add_part(PathSegment, self.__vector_cls__(0, length), radius,
-                                  absolute=True)
+            return self.absolute_vertical_to(length, radius)
         else:
             return self._add_part(VerticalSegment, length, radius)
 
-- 
2.43.0


From 591ceddd30646dbe12fb766a43f17bdc75b28676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:06 +0000
Subject: [PATCH 090/121] fix: Path2D: the geometry of horizontal, vertical and
 compass segments ignored the rounded corners

---
 Patro/GeometryEngine/Path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index 26b4df7..cfbf072 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -447,7 +447,7 @@ class DirectionalSegmentMixin(LinearSegment):
     @property
     def geometry(self):
         # Fixme: cache ???
-        return Segment2D(self.start_point, self.stop_point)
+        return Segment2D(*self.points)
 
 ####################################################################################################
 
-- 
2.43.0


From fb23396fce750494b71b95f5e33d4bab89bc2933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:06 +0000
Subject: [PATCH 091/121] fix: Path2D: a rejected transformation changed a part
 of the path

---
 Patro/GeometryEngine/Path.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index cfbf072..a98f36a 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -947,6 +947,11 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
 
         # self._logger.info(str(self) + '\n' + str(transformation.type) + '\n' + str(transformation) )
 
+        # the transformation is rejected before the path is changed
+        for part in self._parts:
+            if isinstance(part, LinearSegment) and part.radius is not None:
+                transformation * part.radius
+
         for part in self._parts:
             # print(part)
             if isinstance(part, DirectionalSegmentMixin):
-- 
2.43.0


From 9399fe46d0b679b8c6e92efd30caa2c50aebf44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:06 +0000
Subject: [PATCH 092/121] fix: Path2D: a rejected close added a segment to the
 path

---
 Patro/GeometryEngine/Path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/GeometryEngine/Path.py b/Patro/GeometryEngine/Path.py
index a98f36a..33fcf3c 100644
--- a/Patro/GeometryEngine/Path.py
+++ b/Patro/GeometryEngine/Path.py
@@ -1064,6 +1064,8 @@ class Path2D(Primitive1PMixin, Primitive2DMixin, PointPrimitive):
         # Fixme: identify as close for SVG export <-- meaning ???
 
         closing = close_radius is not None
+        if closing and not isinstance(self.start_segment, LinearSegment):
+            raise ValueError('First path segment must be linear')
         segment = self._add_part(PathSegment, self._p0, radius, absolute=True, closing=closing)
         if closing:
             self.start_segment.close(close_radius)
-- 
2.43.0


From 4554f193c5f403fa9c2155129ca159342d5d8453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:45 +0000
Subject: [PATCH 093/121] fix: SVG: a list of transformations, or spaces in a
 transformation, could not be read

---
 Patro/FileFormat/Svg/SvgFormat.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 5d0b84d..d9b2729 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -444,15 +444,14 @@ class TransformAttribute(StringAttribute):
             return value
         else:
             transforms = []
-            for transform in split_space_list(value):
-                pos0 = value.find('(')
-                pos1 = value.find(')')
-                if pos0 == -1 or pos1 != len(value) -1:
-                    raise ValueError
-                transform_type = value[:pos0]
-                values = [float(x) for x in value[pos0+1:-1].split(',')]
-                transforms.append((transform_type, values))
-                # Fixme:
+            # values are separated by spaces or commas
+            *parts, trailer = value.replace(',', ' ').split(')')
+            if trailer.strip():
+                raise ValueError('Invalid transform: {}'.format(value))
+            for part in parts:
+                transform_type, values = part.split('(')
+                values = [float(x) for x in values.split()]
+                transforms.append((transform_type.strip(), values))
 
             # return transforms
             return cls.to_python(transforms, concat=True)
@@ -498,7 +497,8 @@ class TransformAttribute(StringAttribute):
             else:
                 raise NotImplementedError
             if concat:
-                global_transform = transform * global_transform
+                # the last transformation of the list is applied first
+                global_transform = global_transform * transform
             else:
                 py_transforms.append(transform)
 
-- 
2.43.0


From 119528fe7739c6f228346383d8496f0acb59b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:45 +0000
Subject: [PATCH 094/121] fix: SVG: the matrix of a transformation was written
 with nine values and by rows

---
 Patro/FileFormat/Svg/SvgFormat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index d9b2729..5f2e84d 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -460,9 +460,9 @@ class TransformAttribute(StringAttribute):
 
     @classmethod
     def to_xml(cls, value):
-        # Fixme: wrong if value is AffineTransformation2D !!!
-        # Fixme: to func
-        return 'matrix({})'.format(' '.join([str(x) for x in value.to_list()]))
+        # matrix(a b c d e f) is given by columns, without the last row
+        values = value.to_list()
+        return 'matrix({})'.format(' '.join([str(values[i]) for i in (0, 3, 1, 4, 2, 5)]))
 
     ##############################################
 
-- 
2.43.0


From 6ec515a78241207954d39a172bedb2892959a70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:45 +0000
Subject: [PATCH 095/121] fix: SVG: scale with one value could not be read

---
 Patro/FileFormat/Svg/SvgFormat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 5f2e84d..4efd92b 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -483,7 +483,8 @@ class TransformAttribute(StringAttribute):
                 vector = Vector2D(complete(values, 2))
                 transform = AffineTransformation2D.Translation(vector)
             elif name == 'scale':
-                transform = AffineTransformation2D.Scale(*values)
+                x_scale, y_scale = values if len(values) == 2 else values*2
+                transform = AffineTransformation2D.Scale(x_scale, y_scale)
             elif name == 'rotate':
                 angle, *vector = complete(values, 3)
                 vector = Vector2D(vector)
-- 
2.43.0


From 1eaa53f046d5f4efc0a3be94e96d02fde7664bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:00 +0000
Subject: [PATCH 096/121] fix: SVG: path data without spaces, or on several
 lines, could not be read

---
 Patro/FileFormat/Svg/SvgFormat.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 4efd92b..10400e8 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -67,6 +67,7 @@ __all__ = [
 ####################################################################################################
 
 import logging
+import re
 
 from Patro.Common.Xml.Objectivity import (
     # BoolAttribute,
@@ -952,6 +953,8 @@ class PathDataAttribute(StringAttribute):
 
     COMMANDS = ''.join(NUMBER_OF_ARGS.keys())
 
+    TOKEN = re.compile(r'[A-Za-z]|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?')
+
     _logger = _module_logger.getChild('PathDataAttribute')
 
     ##############################################
@@ -966,18 +969,20 @@ class PathDataAttribute(StringAttribute):
 
         # Replace comma separator by space
         cleaned_svg_path = svg_path.replace(',', ' ')
-        # Add space after letter
-        data_path = ''
-        for c in cleaned_svg_path:
-            data_path += c
-            if c.isalpha:
-                data_path += ' '
-        # Convert float values
+        # Split commands and values, spaces are optional where there is no ambiguity, e.g. M20-10h.5.5
         parts = []
-        for part in split_space_list(cleaned_svg_path):
-            if not(len(part) == 1 and part.isalpha()):
+        position = 0
+        for match in cls.TOKEN.finditer(cleaned_svg_path):
+            if cleaned_svg_path[position:match.start()].strip():
+                break
+            position = match.end()
+            part = match.group()
+            # Convert float values
+            if not part.isalpha():
                 part = float(part)
             parts.append(part)
+        if cleaned_svg_path[position:].strip():
+            raise ValueError("Invalid path data: '{}'".format(svg_path))
 
         commands = []
         command = None # last command
-- 
2.43.0


From 1b1a81f5456bb025eb173198346dc72ab1ba58ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:34 +0000
Subject: [PATCH 097/121] fix: SVG: a number after the closing of a path looped
 for ever

---
 Patro/FileFormat/Svg/SvgFormat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 10400e8..c38fcb8 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -998,6 +998,8 @@ class PathDataAttribute(StringAttribute):
                 number_of_args = cls.NUMBER_OF_ARGS[command_lower]
                 i += 1 # move to first arg
             # else repeated instruction
+            elif number_of_args == 0:
+                raise ValueError("Path instruction '{}' has no argument in\n{}".format(command, svg_path))
             next_i = i + number_of_args
             args = parts[i:next_i]
             commands.append((command, args))
-- 
2.43.0


From c5aab13bc0aab037bd2b7decbd86cc072c41c226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:34 +0000
Subject: [PATCH 098/121] fix: SVG: the line cap, the line join and the miter
 limit of an item were ignored by the state

---
 Patro/FileFormat/Svg/SvgFormat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index c38fcb8..e10a511 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -310,9 +310,9 @@ class ColorMixin:
 class StrokeMixin:
 
     __attributes__ = (
-        StringAttribute('stroke_line_cap', 'stroke-linecap'),
-        StringAttribute('stroke_line_join', 'stroke-linejoin'),
-        NumberAttribute('stroke_miter_limit', 'stroke-miterlimit'),
+        StringAttribute('stroke_linecap', 'stroke-linecap'),
+        StringAttribute('stroke_linejoin', 'stroke-linejoin'),
+        NumberAttribute('stroke_miterlimit', 'stroke-miterlimit'),
         PercentLengthAttribute('stroke_width', 'stroke-width'),
         FloatListAttribute('stroke_dasharray', 'stroke-dasharray') # stroke-dasharray="20,10,5,5,5,10"
     )
-- 
2.43.0


From e997dd4a539a45841279465e43d3b707e9f7d739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:34 +0000
Subject: [PATCH 099/121] fix: SVG: the unit of a stroke width was truncated,
 and lost when it was written

---
 Patro/FileFormat/Svg/SvgFormat.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index e10a511..bab10ba 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -247,6 +247,11 @@ class PercentValue:
     def __float__(self):
         return self._value
 
+    ##############################################
+
+    def __str__(self):
+        return '{}%'.format(self._value * 100)
+
 ####################################################################################################
 
 class UnitValue:
@@ -264,9 +269,15 @@ class UnitValue:
 
     ##############################################
 
-    def __str__(self):
+    @property
+    def unit(self):
         return self._unit
 
+    ##############################################
+
+    def __str__(self):
+        return '{}{}'.format(self._value, self._unit)
+
 ####################################################################################################
 
 class PercentLengthAttribute(InheritAttribute):
@@ -279,22 +290,15 @@ class PercentLengthAttribute(InheritAttribute):
         if value.endswith('%'):
             return PercentValue(value[:-1])
         elif value[-1].isalpha():
-            return UnitValue(value[:-2], value[-2])
+            return UnitValue(value[:-2], value[-2:])
         else:
             return float(value)
 
     ##############################################
 
     @classmethod
-    def _to_xml(cls, value):
-
-        # Fixme: ok ???
-        if isinstance(value, PercentValue):
-            return '{}%'.format(float(value))
-        elif isinstance(value, UnitValue):
-            return '{}{}'.format(float(value), value.unit)
-        else:
-            return str(value)
+    def to_xml(cls, value):
+        return str(value)
 
 ####################################################################################################
 
-- 
2.43.0


From 483ed9b14ba6c40fb55612edd83a29aa25a228d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:34 +0000
Subject: [PATCH 100/121] fix: SVG: a style which ends by a semicolon, or has a
 colon in a value, could not be read

---
 Patro/FileFormat/Svg/SvgFile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index e97e2df..9fdc749 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -132,7 +132,9 @@ class RenderState:
         style = getattr(item, 'style', None)
         if style is not None:
             for pair in style.split(';'):
-                state, value = [x.strip() for x in pair.split(':')]
+                if not pair.strip():
+                    continue # the last separator is optional
+                state, value = [x.strip() for x in pair.split(':', 1)]
                 state = state.replace('-', '_')
                 if state == 'transform':
                     self.transform = self.transform * value
-- 
2.43.0


From 1e748b12a5ceeca5dec4b9e788a10d3e736ce5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:34 +0000
Subject: [PATCH 101/121] fix: SVG: the size of the view box was taken as its
 end

---
 Patro/FileFormat/Svg/SvgFile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 9fdc749..ef537d6 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -366,8 +366,8 @@ class SvgFileInternal(XmlFileMixin, SvgFileMixin):
     ##############################################
 
     def on_svg_root(self, svg_root):
-        x_inf, y_inf, x_sup, y_sup = svg_root.view_box
-        self._view_box = Interval2D((x_inf, x_sup), (y_inf, y_sup))
+        x_inf, y_inf, width, height = svg_root.view_box
+        self._view_box = Interval2D((x_inf, x_inf + width), (y_inf, y_inf + height))
         self._width = svg_root.width
         self._height = svg_root.height
 
-- 
2.43.0


From eec5a05a8ac5f014e20a3138fac35fc3e6c277b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:34 +0000
Subject: [PATCH 102/121] fix: XML: a list of values separated by a comma and a
 space could not be read

---
 Patro/Common/Xml/Objectivity.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/Patro/Common/Xml/Objectivity.py b/Patro/Common/Xml/Objectivity.py
index 7f0535a..fefff70 100644
--- a/Patro/Common/Xml/Objectivity.py
+++ b/Patro/Common/Xml/Objectivity.py
@@ -181,13 +181,8 @@ class FloatListAttribute(Attribute):
         elif isinstance(value, (tuple, list)): # Python value
             return value
         else:
-            if ' ' in value:
-                separator = ' '
-            elif ',' in value:
-                separator = ','
-            else:
-                return [float(value)]
-            return [float(x) for x in value.split(separator)]
+            # values are separated by spaces or commas
+            return [float(x) for x in value.replace(',', ' ').split()]
 
     ##############################################
 
-- 
2.43.0


From 30aba9210ad97c270b35eee4e099d68dea750b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:34 +0000
Subject: [PATCH 103/121] fix: SVG: a rectangle without position failed, one
 without ry had no rounded corners

---
 Patro/FileFormat/Svg/SvgFormat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index bab10ba..22fb51a 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -1181,12 +1181,15 @@ class Rect(PositionMixin, RadiusMixin, SizeMixin, PathMixin, SvgElementMixin, Xm
         # Fixme: which one ???
         radius_x = self.rx
         radius_y = self.ry
+        if radius_y is None:
+            # a missing radius is the other one
+            radius_y = radius_x
         if radius_y == 0:
             radius = None
         else:
             radius = radius_y
 
-        point = Vector2D(self.x, self.y)
+        point = Vector2D(self.x or 0, self.y or 0)
         path = Path2D(point)
         path.horizontal_to(width)
         path.vertical_to(height, radius=radius)
-- 
2.43.0


From 6beb8f57a741953e542e55654aadcd83d820ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:34 +0000
Subject: [PATCH 104/121] fix: SVG: the states shared the transformation, thus
 a change in place was seen by all the documents

---
 Patro/FileFormat/Svg/SvgFile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index ef537d6..167323e 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -88,6 +88,8 @@ class RenderState:
                 value = self.to_python(getattr(item, state))
             else:
                 value = getattr(SvgFormat.PresentationAttributes, state)
+            if isinstance(value, AffineTransformation2D):
+                value = AffineTransformation2D(value, value.type) # it can be changed in place
             setattr(self, state, value)
 
     ##############################################
-- 
2.43.0


From 215d9c7ecb0742d009b0ee92893d304bdbb7ef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:15 +0000
Subject: [PATCH 105/121] fix: DXF: the points of a drawing could not be
 imported, ezdxf vectors cannot be sliced

---
 Patro/FileFormat/Dxf/Importer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index 53d192a..9843920 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -69,7 +69,9 @@ class DxfImporter:
 
     @staticmethod
     def _to_vector(point):
-        return Vector2D(point[:2])
+        # a point is a 3D vector or an array
+        x, y, *_ = point
+        return Vector2D(x, y)
 
     @classmethod
     def _to_vectors(cls, points):
-- 
2.43.0


From ef5a19873ebe9aacae3a7bbed789e43d999623a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:15 +0000
Subject: [PATCH 106/121] fix: DXF: a spline could not be imported, edit_data
 does not exist in ezdxf

---
 Patro/FileFormat/Dxf/Importer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index 9843920..4681746 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -158,8 +158,7 @@ class DxfImporter:
 
     def _on_spline(self, item):
 
-        with item.edit_data() as data:
-            points = self._to_vectors(data.control_points)
+        points = self._to_vectors(item.control_points)
         item_dxf = item.dxf
         spline = BSpline2D(points, item_dxf.degree, item.closed)
         self._add(spline)
-- 
2.43.0


From c6d29c24d1c3f7932ed3e71e454758707ad8fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:16 +0000
Subject: [PATCH 107/121] fix: DXF: the arc of a vertical ellipse was turned by
 90 degrees

---
 Patro/FileFormat/Dxf/Importer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Patro/FileFormat/Dxf/Importer.py b/Patro/FileFormat/Dxf/Importer.py
index 4681746..74d58cc 100644
--- a/Patro/FileFormat/Dxf/Importer.py
+++ b/Patro/FileFormat/Dxf/Importer.py
@@ -135,6 +135,8 @@ class DxfImporter:
         if angle == 90:
             radius_x, radius_y = radius_y, radius_x
             angle = 0
+            # the angles are now measured from the minor axis
+            domain = AngularDomain(domain.start + 90, domain.stop + 90)
         # Fixme: ...
         ellipse = Ellipse2D(
             center,
-- 
2.43.0


From a5034ffb0d5485a0a0af583e02bfe403efc21029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:50 +0000
Subject: [PATCH 108/121] fix: DXF: an arc of a polyline with a negative bulge
 had a negative radius and the wrong center

---
 Patro/FileFormat/Dxf/Polyline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Patro/FileFormat/Dxf/Polyline.py b/Patro/FileFormat/Dxf/Polyline.py
index 0e6a928..5cf28f3 100644
--- a/Patro/FileFormat/Dxf/Polyline.py
+++ b/Patro/FileFormat/Dxf/Polyline.py
@@ -20,7 +20,6 @@
 
 ####################################################################################################
 
-from Patro.Common.Math.Functions import sign
 from Patro.GeometryEngine.Conic import Circle2D, AngularDomain
 from Patro.GeometryEngine.Segment import Segment2D
 from Patro.GeometryEngine.Vector import Vector2D
@@ -212,8 +211,9 @@ class Polyline:
                 normal = direction.normal
                 # offset = vertex1.bulge_radius - vertex1.sagitta
                 offset = vertex1.sagitta_dual
-                center = segment_center + normal * sign(vertex1.bulge) * offset
-                arc = Circle2D(center, vertex1.bulge_radius)
+                # offset and radius are negative when the bulge is, the center is then right of the line
+                center = segment_center + normal * offset
+                arc = Circle2D(center, abs(vertex1.bulge_radius))
                 start_angle, stop_angle = [arc.angle_for_point(vertex.point) for vertex in (vertex1, vertex2)]
                 if start_angle < 0:
                     start_angle += 360
-- 
2.43.0


From 55f4555a411691babbf19e0546f2b6da1094289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:22 +0000
Subject: [PATCH 109/121] fix: the length of an angular domain which crosses
 the origin was greater than a turn

---
 Patro/GeometryEngine/Mixin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GeometryEngine/Mixin.py b/Patro/GeometryEngine/Mixin.py
index a453f0a..d81efb1 100644
--- a/Patro/GeometryEngine/Mixin.py
+++ b/Patro/GeometryEngine/Mixin.py
@@ -134,7 +134,8 @@ class AngularDomain:
             if self.is_counterclockwise:
                 return length
             else:
-                return 2*pi - length
+                # length is negative, the domain crosses the origin
+                return 2*pi + length
 
     ##############################################
 
-- 
2.43.0


From 1fd93e40aa6f188d9b0ac74028a12f98cf04f446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:22 +0000
Subject: [PATCH 110/121] fix: an arc of ellipse was added to a scene as a
 whole ellipse

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index fb1a692..cf16c13 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -309,6 +309,9 @@ class GraphicSceneScope:
         elif isinstance(item, Conic.Ellipse2D):
             ctor = self.ellipse
             args = [item.radius_x, item.radius_y, item.angle]
+            if item.domain:
+                kwargs['start_angle'] = item.domain.start
+                kwargs['stop_angle'] = item.domain.stop
 
         # Line
         elif isinstance(item, Line.Line2D):
-- 
2.43.0


From 08ddbc946b97dcbe39702afe80b4287a39fb5c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:22 +0000
Subject: [PATCH 111/121] fix: a quadratic spline could not be added to a scene

---
 Patro/GraphicEngine/GraphicScene/Scene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/Scene.py b/Patro/GraphicEngine/GraphicScene/Scene.py
index cf16c13..2b879bd 100644
--- a/Patro/GraphicEngine/GraphicScene/Scene.py
+++ b/Patro/GraphicEngine/GraphicScene/Scene.py
@@ -372,8 +372,9 @@ class GraphicSceneScope:
     ##############################################
 
     def add_spline(self, spline, path_style: GraphicPathStyle) -> list:
+        method = self.quadratic_bezier if spline.degree == 2 else self.cubic_bezier
         return [
-            self.cubic_bezier(*bezier.points, path_style, user_data=spline)
+            method(*bezier.points, path_style, user_data=spline)
             for bezier in spline.to_bezier()
         ]
 
-- 
2.43.0


From 60804eb2246e763572db673a4d37384ef79b023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:39 +0000
Subject: [PATCH 112/121] fix: the data file of a textile database was left
 open and read with the encoding of the locale

---
 Patro/TextileTechnology/Database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Patro/TextileTechnology/Database.py b/Patro/TextileTechnology/Database.py
index 4c6ff7d..c7f9e24 100644
--- a/Patro/TextileTechnology/Database.py
+++ b/Patro/TextileTechnology/Database.py
@@ -59,4 +59,5 @@ class Database:
     def load(self, yaml_path=None):
         if yaml_path is None:
             yaml_path = self.DEFAULT_DATA_DIRECTORY.joinpath(self.DEFAULT_DATA_FILENAME)
-        return yaml.load(open(yaml_path, 'r'), Loader=yaml.SafeLoader)
+        with open(yaml_path, 'r', encoding='utf8') as fh:
+            return yaml.load(fh.read(), Loader=yaml.SafeLoader)
-- 
2.43.0


From 3c3791ac8aeb7a7b53839d1596d609157c1bf545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:39 +0000
Subject: [PATCH 113/121] fix: the fibre database could not be loaded

---
 Patro/TextileTechnology/Fiber.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/TextileTechnology/Fiber.py b/Patro/TextileTechnology/Fiber.py
index df32aec..c7231d2 100644
--- a/Patro/TextileTechnology/Fiber.py
+++ b/Patro/TextileTechnology/Fiber.py
@@ -80,12 +80,12 @@ class FiberDatabase(Database):
 
         data = super().load(yaml_path)
 
-        natural_fibers = data['Natural Fibers']
-        for name, item in natural_fibers['Plant Fibers'].items():
+        natural_fibers = data['Natural Fibres']
+        for name, item in natural_fibers['Plant Fibres'].items():
             self.add(Fiber(name, FiberType.Natural, FiberType.Plant, item['source']))
-        for name, item in natural_fibers['Animal Fibers'].items():
+        for name, item in natural_fibers['Animal Fibres'].items():
             self.add(Fiber(name, FiberType.Natural, FiberType.Animal, item['source']))
 
-        synthetic_fibers = data['Synthetic Fibers']
+        synthetic_fibers = data['Synthetic Fibres']
         for name, item in synthetic_fibers.items():
             self.add(Fiber(name, FiberType.Synthetic, None, None))
-- 
2.43.0


From f258962e316e4b0ade13a4f8e236928da393f01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:39 +0000
Subject: [PATCH 114/121] fix: a colour built from a colour lost its name and
 its precision

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 3f95601..5f4f8b5 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -63,7 +63,7 @@ class Color:
         number_of_args = len(args)
         if number_of_args == 1:
             color = args[0]
-            if isinstance(str, Color):
+            if isinstance(color, Color):
                 self._red = color.red_float
                 self._green = color.green_float
                 self._blue = color.blue_float
@@ -94,6 +94,8 @@ class Color:
         # self._name = kwargs.get('name', None)
         if 'name' in kwargs:
             self._name = kwargs['name']
+        elif number_of_args == 1 and isinstance(args[0], Color):
+            self._name = args[0].name
         else:
             self._name = None
 
-- 
2.43.0


From 483c38b95ce2e2e9b0a5a28db68c98f4eb81516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:39 +0000
Subject: [PATCH 115/121] fix: a short hexadecimal colour was read as another
 colour, and a string of any length was accepted

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 5f4f8b5..5862035 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -72,6 +72,10 @@ class Color:
                 if not rgb.startswith('#'):
                     raise ValueError(f'Invalid color {rgb}')
                 rgb = rgb[1:]
+                if len(rgb) == 3:
+                    rgb = ''.join([x*2 for x in rgb])
+                elif len(rgb) != 6:
+                    raise ValueError(f'Invalid color {color}')
                 red, green, blue = rgb[:2], rgb[2:4], rgb[-2:]
                 self._red, self._green, self._blue = [self._to_float(int(x, 16))
                                                       for x in (red, green, blue)]
-- 
2.43.0


From 52daaa70b596c45d4153deb39da9e10b516d98e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:39 +0000
Subject: [PATCH 116/121] fix: a colour built back from its hue, light and
 saturation could be another colour

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 5862035..535779a 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -122,7 +122,7 @@ class Color:
 
     @staticmethod
     def _to_int(x: float) -> int:
-        return int(x*255)
+        return round(x*255)
 
     @staticmethod
     def _to_float(x: int) -> float:
-- 
2.43.0


From 799569b158e6de4c22f9b5fb2ebb9eb2bd5b1207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:39 +0000
Subject: [PATCH 117/121] fix: a missing attribute of a colour database raised
 KeyError, or recursed without end in a copy

---
 Patro/GraphicStyle/Color/ColorDataBase.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicStyle/Color/ColorDataBase.py b/Patro/GraphicStyle/Color/ColorDataBase.py
index 535779a..dc04f7e 100644
--- a/Patro/GraphicStyle/Color/ColorDataBase.py
+++ b/Patro/GraphicStyle/Color/ColorDataBase.py
@@ -245,7 +245,11 @@ class ColorDataBase:
         return self._colors[str(name)]
 
     def __getattr__(self, name: str) -> Color:
-        return self._colors[name]
+        # Note: copy and hasattr look up names on an instance
+        colors = self.__dict__.get('_colors', {})
+        if name in colors:
+            return colors[name]
+        raise AttributeError(f"Unknown color '{name}'")
 
     ##############################################
 
-- 
2.43.0


From e03ca9d77b9a6129baf058162cb32ce05ed0e4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:39 +0000
Subject: [PATCH 118/121] fix: the clone of a graphic style lost a part of the
 style

---
 Patro/GraphicEngine/GraphicScene/GraphicStyle.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
index c06a0a8..de1d1d4 100644
--- a/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
+++ b/Patro/GraphicEngine/GraphicScene/GraphicStyle.py
@@ -86,7 +86,11 @@ class GraphicPathStyle:
             'stroke_style',
             'line_width',
             'stroke_color',
+            'stroke_alpha',
             'fill_color',
+            'fill_alpha',
+            'cap_style',
+            'join_style',
         )
 
     ##############################################
@@ -203,7 +207,7 @@ class GraphicBezierStyle(GraphicPathStyle):
     ##############################################
 
     def _dict_keys(self) -> list:
-        return (
+        return super()._dict_keys() + (
             'show_control',
             'control_color',
         )
-- 
2.43.0


From 909a807e2180bd6d4ee22e5f6f7fe44a0a49aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:00 +0000
Subject: [PATCH 119/121] fix: a colour which Matplotlib does not know, or
 without name, was not drawn by the Matplotlib painter

---
 Patro/GraphicEngine/Painter/MplPainter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Patro/GraphicEngine/Painter/MplPainter.py b/Patro/GraphicEngine/Painter/MplPainter.py
index 4b18830..361980f 100644
--- a/Patro/GraphicEngine/Painter/MplPainter.py
+++ b/Patro/GraphicEngine/Painter/MplPainter.py
@@ -83,7 +83,7 @@ class MplPainter(Painter):
     def _add_path(self, item, vertices, codes):
         path = Path(vertices, codes)
         path_syle = item.path_style
-        color = path_syle.stroke_color.name
+        color = str(path_syle.stroke_color)
         line_style = self.__STROKE_STYLE__[path_syle.stroke_style]
         line_width = path_syle.line_width_as_float
         patch = patches.PathPatch(path, edgecolor=color, facecolor='none', linewidth=line_width, linestyle=line_style)
-- 
2.43.0


From a991e592a5c7e2a6bb976535d16cf3653af7f049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:00 +0000
Subject: [PATCH 120/121] fix: dashed lines were not drawn by the Matplotlib
 painter, and invisible ones were

---
 Patro/GraphicEngine/Painter/MplPainter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Patro/GraphicEngine/Painter/MplPainter.py b/Patro/GraphicEngine/Painter/MplPainter.py
index 361980f..a368d43 100644
--- a/Patro/GraphicEngine/Painter/MplPainter.py
+++ b/Patro/GraphicEngine/Painter/MplPainter.py
@@ -39,12 +39,12 @@ _module_logger = logging.getLogger(__name__)
 class MplPainter(Painter):
 
     __STROKE_STYLE__ = {
-        StrokeStyle.NoPen: None,
+        StrokeStyle.NoPen: 'none',
         StrokeStyle.SolidLine: 'solid', # '-'
-        StrokeStyle.DashLine: '', # Fixme:
+        StrokeStyle.DashLine: 'dashed', # '--'
         StrokeStyle.DotLine: 'dotted', # ':'
-        StrokeStyle.DashDotLine: 'dashdot', # '--'
-        StrokeStyle.DashDotDotLine: '', # Fixme:
+        StrokeStyle.DashDotLine: 'dashdot', # '-.'
+        StrokeStyle.DashDotDotLine: (0, (6, 2, 1, 2, 1, 2)),
     }
 
     ##############################################
-- 
2.43.0


From 8a97a5e2eb8c24cf790e273335746f2d74338ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:13 +0000
Subject: [PATCH 121/121] fix: attributes of the root of a SVG document were
 not inherited by its items

---
 Patro/FileFormat/Svg/SvgFile.py   | 2 ++
 Patro/FileFormat/Svg/SvgFormat.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/Patro/FileFormat/Svg/SvgFile.py b/Patro/FileFormat/Svg/SvgFile.py
index 167323e..f8e207d 100644
--- a/Patro/FileFormat/Svg/SvgFile.py
+++ b/Patro/FileFormat/Svg/SvgFile.py
@@ -349,6 +349,8 @@ class SvgFileInternal(XmlFileMixin, SvgFileMixin):
         svg_root = self._dispatcher.from_xml(tree)
         self.on_svg_root(svg_root)
 
+        # items inherit also from the root
+        self._dispatcher.state.merge(svg_root)
         self._dispatcher.on_root(tree)
 
     ##############################################
diff --git a/Patro/FileFormat/Svg/SvgFormat.py b/Patro/FileFormat/Svg/SvgFormat.py
index 22fb51a..94d6200 100644
--- a/Patro/FileFormat/Svg/SvgFormat.py
+++ b/Patro/FileFormat/Svg/SvgFormat.py
@@ -557,7 +557,7 @@ class SvgElementMixin(IdMixin, StyleMixin, TransformMixin):
 #
 ####################################################################################################
 
-class Svg(PositionMixin, SizeMixin, XmlObjectAdaptator):
+class Svg(FontMixin, PathMixin, SvgElementMixin, PositionMixin, SizeMixin, XmlObjectAdaptator):
 
     """Creates an SVG document fragment"""
 
-- 
2.43.0

