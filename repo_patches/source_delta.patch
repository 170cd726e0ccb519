From cfbc5bdec60df26697b2943a8046bb38197e6309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 01/44] fix: give partially reversed diagram slices the right
 domain and codomain

---
 lambeq/backend/grammar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 7d9026c..336266e 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1000,7 +1000,11 @@ class Diagram(Entity):
         if isinstance(key, slice):
             if key.step == -1:
                 layers = [layer.dagger() for layer in self.layers[key]]
-                return type(self)(self.cod, self.dom, layers)
+                if not layers:
+                    start = key.indices(len(self))[0]
+                    return self.id(self.layers[start].cod if start >= 0
+                                   else self.dom)
+                return type(self)(layers[0].dom, layers[-1].cod, layers)
             if (key.step or 1) != 1:
                 raise IndexError
             layers = self.layers[key]
-- 
2.43.0


From dc77ca1956ab3c4dc7275b2a1fe9ea9a22beb5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 02/44] fix: reverse the components of a frame only for odd
 rotations, so that rotations add up

---
 lambeq/backend/grammar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 336266e..2e5693c 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2154,12 +2154,13 @@ class Frame(Box):
 
     def rotate(self, z: int) -> Self:
         """Rotate the box, changing the winding number."""
+        components = (reversed(self.components) if z % 2 == 1
+                      else self.components)
         return replace(self,
                        dom=self.dom.rotate(z),
                        cod=self.cod.rotate(z),
                        z=self.z + z,
-                       components=[c.rotate(z) for c in
-                                   reversed(self.components)])
+                       components=[c.rotate(z) for c in components])
 
     def dagger(self) -> DaggeredFrame | Frame:
         return DaggeredFrame(self)
-- 
2.43.0


From 9eda17462e149200c4a51c77e7e6823e77dab208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:19 +0000
Subject: [PATCH 03/44] fix: keep is_reversed when building cups and caps on
 composite types or to one side

---
 lambeq/backend/grammar.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 2e5693c..76bc8da 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1466,7 +1466,7 @@ class Cap(Box):
 
             diagram = cls.category.Diagram.id()
             for i, (l_ob, r_ob) in enumerate(zip(left, reversed(right))):
-                diagram = diagram.then_at(cls(l_ob, r_ob), i)
+                diagram = diagram.then_at(cls(l_ob, r_ob, is_reversed), i)
             return diagram
 
     def __reduce__(self):
@@ -1479,11 +1479,11 @@ class Cap(Box):
 
     @classmethod
     def to_right(cls, left: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(left, left.r if is_reversed else left.l)
+        return cls(left, left.r if is_reversed else left.l, is_reversed)
 
     @classmethod
     def to_left(cls, right: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(right.l if is_reversed else right.r, right)
+        return cls(right.l if is_reversed else right.r, right, is_reversed)
 
     def rotate(self, z: int) -> Self:
         """Rotate the cap."""
@@ -1593,7 +1593,8 @@ class Cup(Box):
 
             diagram = cls.category.Diagram.id(left @ right)
             for i, (l_ob, r_ob) in enumerate(zip(reversed(left), right)):
-                diagram = diagram.then_at(cls(l_ob, r_ob), len(left) - 1 - i)
+                diagram = diagram.then_at(cls(l_ob, r_ob, is_reversed),
+                                          len(left) - 1 - i)
             return diagram
 
     def __reduce__(self):
@@ -1606,11 +1607,11 @@ class Cup(Box):
 
     @classmethod
     def to_right(cls, left: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(left, left.l if is_reversed else left.r)
+        return cls(left, left.l if is_reversed else left.r, is_reversed)
 
     @classmethod
     def to_left(cls, right: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(right.r if is_reversed else right.l, right)
+        return cls(right.r if is_reversed else right.l, right, is_reversed)
 
     def rotate(self, z: int) -> Self:
         """Rotate the cup."""
-- 
2.43.0


From c5bf9b453fb5b15b8351d5c58e4d37d0b6be56db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:19 +0000
Subject: [PATCH 04/44] fix: tensoring a diagram with nothing (e.g. a spider on
 the empty type) gives the diagram itself

---
 lambeq/backend/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 76bc8da..592337e 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -967,7 +967,7 @@ class Diagram(Entity):
         except ValueError:
             return NotImplemented   # type: ignore[no-any-return]
 
-        right = dom = self.dom.tensor(*[
+        right = dom = self.dom.tensor([
             diagram.to_diagram().dom for diagram in diagrams
         ])
         left = self.category.Ty()
-- 
2.43.0


From 4a8181bb67765d4001b3699ac12a9c87f983eea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 05/44] fix: do not cache an ill-typed image of a box, so that
 it is refused every time

---
 lambeq/backend/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 592337e..20a47ce 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2083,8 +2083,6 @@ class Functor:
         else:
             ret = self.target_category.Diagram.id(self.ob_with_cache(ar.dom))
 
-        self.ar_cache[ar] = ret
-
         cod_check = self.ob_with_cache(ar.cod)
         dom_check = self.ob_with_cache(ar.dom)
         if ret.cod != cod_check or ret.dom != dom_check:
@@ -2092,6 +2090,8 @@ class Functor:
                             f'to a box returns dom = {ret.dom}, cod = '
                             f'{ret.cod} expected dom = {dom_check}, cod = '
                             f'{cod_check}')
+
+        self.ar_cache[ar] = ret
         return ret
 
     def ob(self, ob: Ty) -> Ty:
-- 
2.43.0


From 4ccc9c195b5417a6a06e3fff4c33ac4101d772ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 06/44] fix: decode daggered words and frames with box
 components from JSON

---
 lambeq/backend/grammar.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 20a47ce..90c6fc7 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1700,7 +1700,7 @@ class Daggered(Box):
     def from_json(cls, data: _JSONDictT | str) -> Self:
         data_dict = json.loads(data) if isinstance(data, str) else data
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
-        box = cls.category.Box.from_json(data_dict['box'])
+        box = cls.category.from_json(data_dict['box'])
 
         return box.dagger()  # type: ignore[return-value]
 
@@ -2196,21 +2196,9 @@ class Frame(Box):
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
-        components = []
-        for component_json in data_dict['components']:
-            component_entity = component_json['entity']
-            if component_entity == 'Diagram':
-                component = cls.category.Diagram.from_json(component_json)
-            else:
-                comp_cls = cls.category.Diagram.special_boxes[
-                    component_entity.lower()
-                ]
-                component = comp_cls.from_json(    # type: ignore[attr-defined]
-                    component_json
-                )
-            components.append(component)
-
-        data_dict['components'] = components
+        data_dict['components'] = [cls.category.from_json(component_json)
+                                   for component_json
+                                   in data_dict['components']]
 
         return cls(**data_dict)
 
-- 
2.43.0


From 01241b466a72568f3c4374dc758fa736ff7254d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 07/44] fix: decoding JSON data leaves the given data unchanged

---
 lambeq/backend/grammar.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 90c6fc7..d2775b9 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -365,7 +365,7 @@ class Ty(Entity):
         :py:class:`~lambeq.backend.Ty`
             The type generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['objects'] = [cls.from_json(obj_data)
                                 for obj_data
@@ -540,7 +540,7 @@ class Box(Entity):
         :py:class:`~lambeq.backend.Box`
             The box generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -647,7 +647,7 @@ class Layer(Entity):
         :py:class:`~lambeq.backend.grammar.Layer`
             The layer generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         _entity_mapping = {
@@ -1340,7 +1340,7 @@ class Diagram(Entity):
         :py:class:`~lambeq.backend.Diagram`
             The diagram generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -1511,7 +1511,7 @@ class Cap(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1641,7 +1641,7 @@ class Cup(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1698,7 +1698,7 @@ class Daggered(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         box = cls.category.from_json(data_dict['box'])
 
@@ -1801,7 +1801,7 @@ class Spider(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['type'] = cls.category.Ty.from_json(data_dict['type'])
 
@@ -1894,7 +1894,7 @@ class Swap(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1955,7 +1955,7 @@ class Word(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
 
@@ -2192,7 +2192,7 @@ class Frame(Box):
         :py:class:`~lambeq.backend.Frame`
             The frame generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -2266,7 +2266,7 @@ class DaggeredFrame(Frame):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> DaggeredFrame:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         frame_cls = cls.category.Diagram.special_boxes['frame']
         frame = frame_cls.from_json(     # type: ignore[attr-defined]
-- 
2.43.0


From f526a7a7b4f616cd3bded3d609b708d433cc52e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:24 +0000
Subject: [PATCH 08/44] fix: only remove snakes whose straightened wire keeps
 its type

---
 lambeq/backend/snake_removal.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lambeq/backend/snake_removal.py b/lambeq/backend/snake_removal.py
index 346802e..f1b776b 100644
--- a/lambeq/backend/snake_removal.py
+++ b/lambeq/backend/snake_removal.py
@@ -108,12 +108,18 @@ def snake_removal(diagram: Diagram, left: bool = False) -> Iterator[Diagram]:
             for left_snake, wire in [(True, diagram.offsets[cap]),
                                      (False, diagram.offsets[cap] + 1)]:
                 cup, wire, obstructions = follow_wire(diagram, cap, wire)
-                not_yankable = (cup == len(diagram)
-                                or not isinstance(diagram.boxes[cup], Cup)
+                cap_box = diagram.boxes[cap]
+                cup_box = diagram.boxes[cup] if cup < len(diagram) else None
+                not_yankable = (not isinstance(cup_box, Cup)
                                 or (left_snake
                                     and diagram.offsets[cup] + 1 != wire)
                                 or (not left_snake
-                                    and diagram.offsets[cup] != wire))
+                                    and diagram.offsets[cup] != wire)
+                                # the straightened wire must keep its type
+                                or (left_snake
+                                    and cup_box.left != cap_box.right)
+                                or (not left_snake
+                                    and cup_box.right != cap_box.left))
                 if not_yankable:
                     continue
                 return cup, cap, obstructions, left_snake
-- 
2.43.0


From f0cd58da237bbd9a76951d1bc8c05ba3dee3d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:24 +0000
Subject: [PATCH 09/44] fix: pregroup normal form of diagrams with a non-empty
 domain

---
 lambeq/backend/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index d2775b9..3330559 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1178,7 +1178,7 @@ class Diagram(Entity):
         """
 
         words = Id()
-        is_pregroup = True
+        is_pregroup = not self.dom
 
         for _, box, right in self:
             if isinstance(box, Word):
-- 
2.43.0


From ec2298980109bec72316fbee21292d8684a21aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:48 +0000
Subject: [PATCH 10/44] fix: refuse malformed CCG types in brackets with
 CCGParseError

---
 lambeq/text2diagram/ccg_type.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/ccg_type.py b/lambeq/text2diagram/ccg_type.py
index 1f6b35e..63ea438 100644
--- a/lambeq/text2diagram/ccg_type.py
+++ b/lambeq/text2diagram/ccg_type.py
@@ -382,7 +382,11 @@ class CCGType:
                     cat,
                     f'input ended with unmatched "(" at index {start}'
                 )
-            assert cat[end] == ')'
+            if cat[end] != ')':
+                raise CCGParseError(
+                    cat,
+                    f'unexpected {repr(cat[end])} at index {end}'
+                )
             end += 1
 
         return biclosed_type, end
-- 
2.43.0


From b32fc7aad90f6086524a5bba972336755da0ae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:48 +0000
Subject: [PATCH 11/44] fix: replacing in the empty CCG type

---
 lambeq/text2diagram/ccg_type.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/text2diagram/ccg_type.py b/lambeq/text2diagram/ccg_type.py
index 63ea438..e2b2543 100644
--- a/lambeq/text2diagram/ccg_type.py
+++ b/lambeq/text2diagram/ccg_type.py
@@ -396,7 +396,7 @@ class CCGType:
 
         if self == original:
             return replacement
-        elif self.is_atomic:
+        elif not self.is_complex:
             return self
         else:
             new_result = self.result.replace(original, replacement)
@@ -491,7 +491,7 @@ class CCGType:
         """
         if not (len(direction) in (1, 2) and set(direction).issubset(r'\|/')):
             raise ValueError(f'Invalid direction: `{direction}`')
-        if self.is_atomic:
+        if not self.is_complex:
             return self, None
 
         # `replace` indicates whether `self.result` should be replaced,
-- 
2.43.0


From d8c67227341b451947befde42a64899308c3dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 12/44] fix: the words of a type-changing unary rule get the
 type its swap expects

---
 lambeq/text2diagram/ccg_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index 0c156fa..aa73f4a 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -392,11 +392,11 @@ class CCGTree:
                 #  Ty() << (Ty() << Y)       -> Y.l.l
                 # (Ty() << (Ty() << Y)) >> X -> Y.l.l.r @ X = Y.l @ X
                 other_direction = '\\' if output.direction == '/' else '/'
-                resolved_dom = (output.argument.slash(
+                resolved_dom = (output.result.slash(
                     other_direction,
                     CCGType().slash(
                         output.direction,
-                        CCGType().slash(output.direction, output.result)
+                        CCGType().slash(output.direction, output.argument)
                     )
                 ),)
             else:
-- 
2.43.0


From 852fc23b2932a536690898ce86e83082cb672ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 13/44] fix: keep the diagram of the outer subtree in planar
 generalised crossed composition

---
 lambeq/text2diagram/ccg_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index aa73f4a..74df26a 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -503,7 +503,7 @@ class CCGTree:
             inner = right_words >> right_diag
             cups = Diagram.cups(join, join.r)
             mid = (Id(join) @ inner) >> (cups @ Id(inner.cod[len(join):]))
-            diag = Id(left) @ mid @ Id(right)
+            diag = left_diag >> Id(left) @ mid @ Id(right)
         elif planar and (self.rule
                          == CCGRule.GENERALIZED_FORWARD_CROSSED_COMPOSITION):
             (left_words, left_diag), (words, right_diag) = children
@@ -514,7 +514,7 @@ class CCGTree:
             inner = left_words >> left_diag
             cups = Diagram.cups(join.l, join)
             mid = (inner @ Id(join)) >> (Id(inner.cod[:-len(join)]) @ cups)
-            diag = Id(left) @ mid @ Id(right)
+            diag = right_diag >> Id(left) @ mid @ Id(right)
         else:
             words, diag = [Id().tensor(*d) for d in zip(*children)]
             diag >>= this_layer
-- 
2.43.0


From 2de45461467dfaeed64a3409536ff2ad94f60561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:11 +0000
Subject: [PATCH 14/44] fix: word rewrite rules only match boxes with the
 domain of their replacement

---
 lambeq/rewrite/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lambeq/rewrite/base.py b/lambeq/rewrite/base.py
index 2ef4783..6224914 100644
--- a/lambeq/rewrite/base.py
+++ b/lambeq/rewrite/base.py
@@ -170,8 +170,9 @@ class SimpleRewriteRule(RewriteRule):
 
     def matches(self, box: Box) -> bool:
         word = box.name if self.case_sensitive else box.name.lower()
-        return box.cod == self.cod and (self.words is None
-                                        or word in self.words)
+        return (box.dom == self.template.dom
+                and box.cod == self.cod
+                and (self.words is None or word in self.words))
 
     def rewrite(self, box: Box) -> Diagrammable:
         def replace_placeholder(_, ar: Box) -> Box:
@@ -270,7 +271,8 @@ class CoordinationRewriteRule(RewriteRule):
         self.words = ['and'] if words is None else words
 
     def matches(self, box: Box) -> bool:
-        if box.name in self.words and len(box.cod) % 3 == 0:
+        if (box.name in self.words and not box.dom
+                and len(box.cod) % 3 == 0):
             n = len(box.cod) // 3
             left, mid, right = box.cod[:n], box.cod[n:2*n], box.cod[2*n:]
             return bool(right.r == mid == left.l)
-- 
2.43.0


From e6d9741a91fd61e8228360174cb5888552a336e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:30 +0000
Subject: [PATCH 15/44] fix: remove a group of cups only together with the
 whole word it is attached to

---
 lambeq/rewrite/rewrite_diagram.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index d6d1c5f..b0185d3 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -164,12 +164,13 @@ class RemoveCupsRewriter(DiagramRewriter):
                     # contract greedily, else combine
                     pg_len = len(box.dom) // 2
                     pg_type1, pg_type2 = box.dom[:pg_len], box.dom[pg_len:]
-                    if len(left.cod) == pg_len and not left.dom:
+                    if off == 0 and len(left.cod) == pg_len and not left.dom:
                         if pg_type1.r == pg_type2:
                             new_diag = right >> (left.dagger().r @ wires_r)
                         else:  # illegal cup
                             new_diag = right >> (left.dagger().l @ wires_r)
-                    elif len(right.cod) == pg_len and not right.dom:
+                    elif (len(right.cod) == pg_len and not right.dom
+                            and not wires_r.cod):
                         if pg_type1.r == pg_type2:
                             new_diag = left >> (wires_l @ right.dagger().l)
                         else:
-- 
2.43.0


From 410172acc51c699741823a048c725e73f1d01b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:30 +0000
Subject: [PATCH 16/44] fix: drop the right wires and offsets when a word has
 several detached cups

---
 lambeq/rewrite/rewrite_diagram.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index b0185d3..c00af1f 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -333,8 +333,8 @@ class RemoveSwapsRewriter(DiagramRewriter):
             for mor in morphisms:
                 if (isinstance(mor.morphism, Cup) and mor.start in rng
                         and mor.end in rng):
-                    del scan[mor.start - wrd.offset:
-                             mor.start - wrd.offset + 2]
+                    scan.remove(mor.start)
+                    scan.remove(mor.end)
                     mor.deleted = True
 
             if len(scan) == len(rng):
@@ -363,16 +363,16 @@ class RemoveSwapsRewriter(DiagramRewriter):
         new_morphisms: list[Box] = []
         mor_offsets: list[int] = []
         for m_idx, m in enumerate(morphisms):
+            if m.deleted:
+                # cup is deleted, adjust all above offsets if required
+                for above in morphisms[:m_idx]:
+                    if not above.deleted and above.start > m.start:
+                        above.offset -= 2
+        for m in morphisms:
             if not m.deleted:
                 # morphism is not deleted, add it with its offset
                 new_morphisms.append(m.morphism)
                 mor_offsets.append(m.offset)
-            else:
-                # cup is deleted, adjust all above offsets if required
-                for j in range(m_idx):
-                    if (not morphisms[j].deleted
-                            and morphisms[j].start > morphisms[m_idx].start):
-                        mor_offsets[j] -= 2
 
         new_diag = Id(diagram.dom)
         for box, offset in zip(new_words+new_morphisms,
-- 
2.43.0


From c7058f4c5e3510f7618253607cb42b1f113a3e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:30 +0000
Subject: [PATCH 17/44] fix: merge the last word into the previous one when its
 type is eliminated

---
 lambeq/rewrite/rewrite_diagram.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index c00af1f..c539018 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -344,6 +344,14 @@ class RemoveSwapsRewriter(DiagramRewriter):
                 # word type has been reduced in length
                 typ = Ty().tensor(*[atomic_types[i] for i in scan])
                 new_words.append(Word(wrd.word.name, typ))
+            elif w_idx + 1 == len(words):
+                # word type has been eliminated and there is no next
+                # word, merge word label with previous one
+                prev_wrd = new_words.pop() if new_words else None
+                new_words.append(
+                    Word(f'{prev_wrd.name} {wrd.word.name}', prev_wrd.cod)
+                    if prev_wrd else Word(wrd.word.name, Ty())
+                )
             else:
                 # word type has been eliminated, merge word label
                 # with next one
-- 
2.43.0


From 082be56d7fe29052d185f8a988871896cd8dd005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:32 +0000
Subject: [PATCH 18/44] fix: do not group cups of opposite directions when
 removing cups

---
 lambeq/rewrite/rewrite_diagram.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index c539018..f1df93a 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -122,6 +122,7 @@ class RemoveCupsRewriter(DiagramRewriter):
             nested_cup = (isinstance(box, Cup)
                           and layers
                           and isinstance(layers[-1][0].boxes[0], Cup)
+                          and box.z == layers[-1][0].z
                           and offset == layers[-1][1] - 1)
             if nested_cup:
                 dom = box.dom[:1] @ layers[-1][0].dom @ box.dom[1:]
-- 
2.43.0


From 40e2bac58cbaf543c3f01a23da2d0f81292dfc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:32 +0000
Subject: [PATCH 19/44] fix: refuse to remove swaps from diagrams that are not
 in pregroup form, as documented

---
 lambeq/rewrite/rewrite_diagram.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index f1df93a..ffd5f1e 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -391,6 +391,9 @@ class RemoveSwapsRewriter(DiagramRewriter):
         return new_diag
 
     def rewrite(self, diagram: Diagram) -> Diagram:
+        if not diagram.is_pregroup:
+            raise ValueError('Not a valid pregroup diagram.')
+
         atomic_types = [ob for b in diagram.boxes
                         for ob in b.cod if isinstance(b, Word)]
         scan = list(range(len(atomic_types)))
-- 
2.43.0


From 96fb86881115239746e26cc4ce4f09350dcbb762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:45 +0000
Subject: [PATCH 20/44] fix: datasets without examples

---
 lambeq/training/dataset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lambeq/training/dataset.py b/lambeq/training/dataset.py
index 7b2243b..dca7ef5 100644
--- a/lambeq/training/dataset.py
+++ b/lambeq/training/dataset.py
@@ -76,7 +76,7 @@ class Dataset:
         self.shuffle = shuffle
 
         if self.batch_size == 0:
-            self.batch_size = len(self.data)
+            self.batch_size = len(self.data) or 1
 
         self.batches_per_epoch = ceil(len(self.data) / self.batch_size)
 
@@ -131,8 +131,8 @@ class Dataset:
         """
         joint_list = list(zip(data, targets))
         random.shuffle(joint_list)
-        data_tuple, targets_tuple = zip(*joint_list)
-        return list(data_tuple), list(targets_tuple)
+        return ([datum for datum, _ in joint_list],
+                [target for _, target in joint_list])
 
 
 def flatten(diagrams: Iterable[Any]) -> Iterator[Diagram]:
-- 
2.43.0


From 82d59bbb3e7e3b8ef066db5ac9af229d6d470521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:06 +0000
Subject: [PATCH 21/44] fix: lambdifying a rotated tensor box keeps its winding
 number

---
 lambeq/backend/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 00cc12b..769cb34 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -280,7 +280,7 @@ class Box(grammar.Box):
 
         return lambda *xs: type(self)(
             self.name, self.dom, self.cod,
-            lambdify(symbols, self.data)(*xs))
+            lambdify(symbols, self.data)(*xs), self.z)
 
     def __repr__(self) -> str:
         return (f'[{self.name}{".l"*(-self.z)}{".r"*self.z}; '
-- 
2.43.0


From 4e7e6f5a7ff9422330b95bf15ec5ddfab2eb2d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:44 +0000
Subject: [PATCH 22/44] fix: bind the parameters of nested controlled gates at
 every level

---
 lambeq/training/quantum_model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lambeq/training/quantum_model.py b/lambeq/training/quantum_model.py
index be21a0b..6eb6ab2 100644
--- a/lambeq/training/quantum_model.py
+++ b/lambeq/training/quantum_model.py
@@ -138,8 +138,6 @@ class QuantumModel(Model):
         for diagram in diagrams:
             for b in diagram.boxes:
                 if b.free_symbols:
-                    while hasattr(b, 'controlled'):
-                        b = b.controlled
                     syms, values = [], []
                     for sym in b.free_symbols:
                         syms.append(sym)
@@ -150,7 +148,12 @@ class QuantumModel(Model):
                                 f'Unknown symbol: {repr(sym)}'
                             ) from e
                     b.data = lambdify(syms, b.data)(*values)  # type: ignore[attr-defined] # noqa: E501
-                    del b.free_symbols
+                    # The data is shared with the gates nested in this one,
+                    # the cached symbols are not
+                    while b is not None:
+                        b.__dict__.pop('free_symbols', None)
+                        b = getattr(b, 'controlled', getattr(b, 'box', None))
+            diagram.__dict__.pop('free_symbols', None)
         return diagrams
 
     @abstractmethod
-- 
2.43.0


From 1ae0c1ded640c573f2975d77b1c345b6493c54d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:19 +0000
Subject: [PATCH 23/44] fix: the quantum swap keeps its array (needed to
 control a swap)

---
 lambeq/backend/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 5f836f5..3dc0885 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -723,6 +723,7 @@ class Swap(tensor.Swap, SelfConjugate, Box):
 
         """
 
+        tensor.Swap.__init__(self, left, right)
         Box.__init__(self,
                      'SWAP',
                      left @ right,
@@ -731,7 +732,6 @@ class Swap(tensor.Swap, SelfConjugate, Box):
                                [0, 0, 1, 0],
                                [0, 1, 0, 0],
                                [0, 0, 0, 1]]))
-        tensor.Swap.__init__(self, left, right)
 
     __hash__: Callable[[], int] = tensor.Swap.__hash__
     __repr__: Callable[[], str] = tensor.Swap.__repr__
-- 
2.43.0


From b417f3263f3743f8cbd144497deb5559005c0f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:53 +0000
Subject: [PATCH 24/44] fix: tensor cups and caps connect every dimension of
 their wires

---
 lambeq/backend/tensor.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 769cb34..8c19547 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -453,10 +453,7 @@ class Cap(grammar.Cap, Box):
 
         super().__init__(left, right)
 
-        arr = np.zeros(left.product ** 2)
-        arr[0] = 1
-        arr[-1] = 1
-        self.data = arr
+        self.data = np.eye(left.product).flatten()
 
     __hash__ = Box.__hash__
     __repr__ = Box.__repr__
@@ -494,10 +491,7 @@ class Cup(grammar.Cup, Box):
 
         super().__init__(left, right)
 
-        arr = np.zeros(left.product ** 2)
-        arr[0] = 1
-        arr[-1] = 1
-        self.data = arr
+        self.data = np.eye(left.product).flatten()
 
     __hash__ = Box.__hash__
     __repr__ = Box.__repr__
-- 
2.43.0


From 10e8e21adaf927ab58de7c51450654af6a73dd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:00 +0000
Subject: [PATCH 25/44] fix: classical boxes and swaps with bits in mixed
 circuits act on the bits

---
 lambeq/backend/quantum.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 3dc0885..1f59fc8 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -515,14 +515,28 @@ class Diagram(tensor.Diagram):
             q_offset = list(left).count(qubit)
 
             if isinstance(box, Swap) and box.is_classical:
-                c_scan[q_offset], c_scan[q_offset + 1] = (c_scan[q_offset + 1],
-                                                          c_scan[q_offset])
+                c_scan[c_offset], c_scan[c_offset + 1] = (c_scan[c_offset + 1],
+                                                          c_scan[c_offset])
+
+            elif isinstance(box, Swap) and bit in box.dom:
+                # Bits and qubits are scanned separately
+                pass
 
             elif isinstance(box, Discard):
                 tn.connect(q_scan1[q_offset], q_scan2[q_offset])
                 del q_scan1[q_offset]
                 del q_scan2[q_offset]
 
+            elif box.is_classical and not box.is_mixed:
+                node = tn.Node(box.array + 0j, 'c_' + str(box))
+
+                for i in range(len(box.dom)):
+                    tn.connect(c_scan[c_offset + i], node[i])
+
+                c_scan[c_offset:c_offset + len(box.dom)] = node[len(box.dom):]
+
+                nodes.append(node)
+
             elif box.is_mixed:
                 if isinstance(box, (Measure, Encode)):
                     node = tn.CopyNode(3, 2, 'cq_' + str(box), dtype=complex)
-- 
2.43.0


From eacc0f28d0fb7bf5275a33f95a64760ec63c9483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:44 +0000
Subject: [PATCH 26/44] fix: Rotosolve projects negative angles by whole turns,
 not by their absolute value

---
 lambeq/training/rotosolve_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/training/rotosolve_optimizer.py b/lambeq/training/rotosolve_optimizer.py
index af15e4c..76acf1c 100644
--- a/lambeq/training/rotosolve_optimizer.py
+++ b/lambeq/training/rotosolve_optimizer.py
@@ -77,7 +77,7 @@ class RotosolveOptimizer(Optimizer):
 
     @staticmethod
     def project(x: np.ndarray) -> np.ndarray:
-        return abs(x) % 1
+        return x % 1
 
     def backward(self,
                  batch: tuple[Iterable[Any], np.ndarray]) -> float:
-- 
2.43.0


From 4f8b637f74ce4fa099502bbcde5d15566a148abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:44 +0000
Subject: [PATCH 27/44] fix: SPSA gives parameters pinned by their bounds no
 gradient instead of dividing by zero

---
 lambeq/training/spsa_optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lambeq/training/spsa_optimizer.py b/lambeq/training/spsa_optimizer.py
index 63cf524..23d44f0 100644
--- a/lambeq/training/spsa_optimizer.py
+++ b/lambeq/training/spsa_optimizer.py
@@ -170,7 +170,10 @@ class SPSAOptimizer(Optimizer):
         if self.bounds is None:
             grad = (loss0 - loss1) / (2 * self.ck * delta)
         else:
-            grad = (loss0 - loss1) / (xplus - xminus)
+            diff = xplus - xminus
+            # no gradient for parameters which the bounds do not let move
+            grad = np.divide(loss0 - loss1, diff,
+                             out=np.zeros_like(diff), where=diff != 0)
 
         self.gradient += grad * mask
 
-- 
2.43.0


From 412b95a2c82824b6e9a3de09757190744236a6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:44 +0000
Subject: [PATCH 28/44] fix: SPSA uses the a and c of a loaded state when
 updating its step sizes

---
 lambeq/training/spsa_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/training/spsa_optimizer.py b/lambeq/training/spsa_optimizer.py
index 23d44f0..8c3dd26 100644
--- a/lambeq/training/spsa_optimizer.py
+++ b/lambeq/training/spsa_optimizer.py
@@ -195,8 +195,8 @@ class SPSAOptimizer(Optimizer):
         self.current_sweep += 1
         a_decay = (self.current_sweep+self.A)**self.alpha
         c_decay = (self.current_sweep)**self.gamma
-        self.ak = self.hyperparams['a']/a_decay
-        self.ck = self.hyperparams['c']/c_decay
+        self.ak = self.a/a_decay
+        self.ck = self.c/c_decay
 
     def state_dict(self) -> dict[str, Any]:
         """Return optimizer states as dictionary.
-- 
2.43.0


From 19926843e8032eac253558bc632f27c2a9a4974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:44 +0000
Subject: [PATCH 29/44] fix: Nelder-Mead state dicts do not share the simplex
 with the optimizer

---
 lambeq/training/nelder_mead_optimizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lambeq/training/nelder_mead_optimizer.py b/lambeq/training/nelder_mead_optimizer.py
index 6b2377c..630d4e6 100644
--- a/lambeq/training/nelder_mead_optimizer.py
+++ b/lambeq/training/nelder_mead_optimizer.py
@@ -398,8 +398,8 @@ class NelderMeadOptimizer(Optimizer):
             'initial_simplex': self.initial_simplex,
             'xatol': self.xatol,
             'fatol': self.fatol,
-            'sim': self.sim,
-            'fsim': self.fsim,
+            'sim': self.sim.copy(),
+            'fsim': self.fsim.copy(),
             'ncalls': self.ncalls,
             'first_iter': self.first_iter,
             'current_sweep': self.current_sweep,
@@ -418,8 +418,8 @@ class NelderMeadOptimizer(Optimizer):
         self.initial_simplex = state_dict['initial_simplex']
         self.xatol = state_dict['xatol']
         self.fatol = state_dict['fatol']
-        self.sim = state_dict['sim']
-        self.fsim = state_dict['fsim']
+        self.sim = state_dict['sim'].copy()
+        self.fsim = state_dict['fsim'].copy()
         self.ncalls = state_dict['ncalls']
         self.first_iter = state_dict['first_iter']
         self.current_sweep = state_dict['current_sweep']
-- 
2.43.0


From eb806f707b45faaf234da23cc8309b8d8b559e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:44 +0000
Subject: [PATCH 30/44] fix: CachedTnPathOptimizer creates the folder of its
 file, not a folder in its place

---
 lambeq/training/tn_path_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/training/tn_path_optimizer.py b/lambeq/training/tn_path_optimizer.py
index 377a1bc..3babbed 100644
--- a/lambeq/training/tn_path_optimizer.py
+++ b/lambeq/training/tn_path_optimizer.py
@@ -194,7 +194,7 @@ class CachedTnPathOptimizer(TnPathOptimizer):
                     self.cached_paths = pickle.load(f)
             except FileNotFoundError:
                 # Make sure the path exists for future use.
-                self.filepath.mkdir(parents=True, exist_ok=True)
+                self.filepath.parent.mkdir(parents=True, exist_ok=True)
             except EOFError:
                 # No previous paths present; continue.
                 pass
-- 
2.43.0


From 79c0f7ad663fd0b2b8abe8bcf14be8771927ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:26 +0000
Subject: [PATCH 31/44] fix: PregroupTreeNode.height follows merges and removed
 nodes

---
 lambeq/text2diagram/pregroup_tree.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lambeq/text2diagram/pregroup_tree.py b/lambeq/text2diagram/pregroup_tree.py
index 7ed6a9c..5732729 100644
--- a/lambeq/text2diagram/pregroup_tree.py
+++ b/lambeq/text2diagram/pregroup_tree.py
@@ -13,7 +13,6 @@
 # permissions and limitations under the License.
 
 from dataclasses import dataclass, field
-from functools import cached_property
 from typing import Optional
 
 from lambeq.backend.grammar import Diagram, Ty
@@ -133,7 +132,7 @@ class PregroupTreeNode:
         return (self.word == other.word
                 and self.ind == other.ind)
 
-    @cached_property
+    @property
     def _tree_repr(self) -> str:
         """The string representation of the entire tree."""
         if not self.children:
@@ -159,7 +158,7 @@ class PregroupTreeNode:
         """Draw the tree."""
         print(self._tree_repr)
 
-    @cached_property
+    @property
     def height(self) -> int:
         """The height of the tree."""
         h = 1
-- 
2.43.0


From dc949d860c7582d7c75d5c10f8835a352ad46e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:02 +0000
Subject: [PATCH 32/44] fix: to_tk post-selects on bits, not qubits

Circuit.post_selection is indexed by bit (get_counts, from_tk,
rename_units), but to_tk filled it with qubit indices, so post-selecting
any qubit whose index differs from its bit raised an IndexError or
selected the wrong outcome.
---
 lambeq/backend/converters/tk.py | 5 ++++-
 lambeq/backend/quantum.py       | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index ed7fb63..71c0c7b 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -237,9 +237,12 @@ def to_tk(diagram: Diagram) -> Circuit:
 
     circuit_info = readoff_circuital(diagram, use_sympy=True)
 
+    # `postmap` is indexed by qubit, but tket post-selects on bits
+    post_selection = {circuit_info.bitmap[qi]: value
+                      for qi, value in circuit_info.postmap.items()}
     circuit = Circuit(circuit_info.total_qubits,
                       len(circuit_info.bitmap),
-                      post_selection=circuit_info.postmap)
+                      post_selection=post_selection)
 
     for gate in circuit_info.gates:
         if gate.gtype == 'Scalar':
diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 1f59fc8..8f39af8 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -423,7 +423,7 @@ class Diagram(tensor.Diagram):
         ...     >> CX\\
         ...     >> Id(qubit) @ Bra(0)
         >>> circuit3.to_tk()
-        tk.Circuit(2, 1).H(0).CX(0, 1).Measure(1, 0).post_select({1: 0})
+        tk.Circuit(2, 1).H(0).CX(0, 1).Measure(1, 0).post_select({0: 0})
         """
         from lambeq.backend.converters.tk import to_tk
         return to_tk(self)
-- 
2.43.0


From 49d7005b4c3bf2bb1e2e0c135f1db1c60acef13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:02 +0000
Subject: [PATCH 33/44] fix: keep the phase of CRy gates when converting
 circuits

Gate.from_box dropped the phase of controlled Ry gates, so exporting a
circuit with one to tket failed.
---
 lambeq/backend/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 8f39af8..c17ab17 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1614,7 +1614,7 @@ class Gate:
             control = sorted(qubits[:-1])
             gate_q = qubits[-1]
 
-            if gtype in ('CRx', 'CRz'):
+            if gtype in ('CRx', 'CRy', 'CRz'):
                 phase = box.phase
                 if use_sympy and isinstance(box.phase, Symbol):
                     # Tket uses sympy, lambeq uses custom symbol
-- 
2.43.0


From 5d72d52123da015fbd95e9d8fa1bee38b6ef6d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:30 +0000
Subject: [PATCH 34/44] fix: keep kets in state one when reading off circuital
 diagrams

readoff_circuital ignored the state of the kets, so a diagram that was
circuital already was exported with every qubit in state zero.
---
 lambeq/backend/quantum.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index c17ab17..1a7b27b 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1693,10 +1693,11 @@ def readoff_circuital(diagram: Diagram,
     bitmap: dict = {}
     postmap: dict = {}
     discards: list[int] = []
+    states: list[int] = []
 
     for layer in layers:
         if isinstance(layer.box, Ket):
-            pass
+            states.insert(len(layer.left), layer.box.bit)
         elif isinstance(layer.box, Measure):
             qi = available_qubits[layer.left.count(qubit)]
             available_qubits.remove(qi)
@@ -1715,6 +1716,10 @@ def readoff_circuital(diagram: Diagram,
             gates.append(Gate.from_box(layer.box, qi,
                                        use_sympy=use_sympy))
 
+    # Backends initialise every qubit to zero
+    gates = [Gate.from_box(X, qi)
+             for qi, state in enumerate(states) if state] + gates
+
     return CircuitInfo(total_qubits,
                        gates,
                        bitmap,
-- 
2.43.0


From 32dbf027111ae85fdefe4678cecd67a4dc503772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:59 +0000
Subject: [PATCH 35/44] fix: a diagram with gates after post-selections is not
 circuital

Gates after the first post-selection or discard act on wires whose
position no longer is the index of their qubit, but such diagrams were
read off directly, as if they were circuital.
---
 lambeq/backend/quantum.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 1a7b27b..c0780c4 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -301,16 +301,15 @@ class Diagram(tensor.Diagram):
             if len(qubit_layer.right):
                 return False
 
-        # Check there are no gates in between post-selections.
+        # Check there are no gates after the first post-selection.
         measure_idx = [i for i, layer in enumerate(layers[num_qubits:])
                        if isinstance(layer.box, (Discard, Bra))]
         if not measure_idx:
             return True
-        mmax = max(measure_idx)
         mmin = min(measure_idx)
         for i, gate in enumerate(layers[num_qubits:]):
             if not isinstance(gate.box, (Discard, Bra, Measure)):
-                if i > mmin and i < mmax:
+                if i > mmin:
                     return False
 
         return True
-- 
2.43.0


From 1d54f54e1f3ad96eaf6c512441c699aeb3d490b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:46 +0000
Subject: [PATCH 36/44] fix: pull qubits through nested and shared controlled
 gates correctly

to_circuital widened controlled boxes in place, so boxes occurring more
than once in a diagram (such as CX) were widened once per occurrence for
each, and it misplaced the controls of nested controlled gates.
---
 lambeq/backend/quantum.py | 50 ++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 29 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index c0780c4..8dd17c6 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1372,6 +1372,25 @@ def to_circuital(diagram: Diagram) -> Diagram:
 
         return gates, q_idx
 
+    def widen(box: Controlled, index: int) -> Controlled:
+        """
+            Inserts a qubit between the qubits of a controlled box.
+            Builds a new box, since layers can share their boxes.
+            index: idx - index of the new qubit within the box.
+        """
+        controlled, distance = box.controlled, box.distance
+        start = max(distance, 0)
+
+        if index <= start:  # Between the left control and the rest
+            return Controlled(controlled, distance + 1)
+        elif index >= start + len(controlled.dom):  # Same for the right
+            return Controlled(controlled, distance - 1)
+        elif isinstance(controlled, Controlled):
+            return Controlled(widen(controlled, index - start), distance)
+        else:
+            raise NotImplementedError('Cannot pull qubit through '
+                                      f'box {controlled}')
+
     def pull_qubit_through(q_idx: int,
                            gates: list[Layer],
                            dom: Ty = qubit) -> tuple[list[Layer], int]:  # noqa: E501
@@ -1402,35 +1421,8 @@ def to_circuital(diagram: Diagram) -> Diagram:
 
             else:
                 if isinstance(gate_layer.box, Controlled):
-                    gate_qubits = [len(gate_layer.left) + j
-                                   for j in range(len(gate_layer.box.dom))]
-
-                    # Initial control qubit box
-                    dists = [0]
-                    curr_box: Box | Controlled = gate_layer.box
-                    while isinstance(curr_box, Controlled):
-                        # Compute relative index control qubits
-                        dists.append(curr_box.distance + sum(dists))
-                        curr_box = curr_box.controlled
-
-                    prev_pos = -1 * min(dists) + gate_qubits[0]
-                    curr_box = gate_layer.box
-
-                    while isinstance(curr_box, Controlled):
-                        curr_pos = prev_pos + curr_box.distance
-                        if prev_pos < q_idx and q_idx <= curr_pos:
-                            curr_box.distance = curr_box.distance + 1
-
-                        elif q_idx <= prev_pos and q_idx > curr_pos:
-                            curr_box.distance = curr_box.distance - 1
-
-                        prev_pos = curr_pos
-                        curr_box = curr_box.controlled
-
-                    box = gate_layer.box
-
-                    box.dom = box.dom.insert(dom, q_idx - l_size)
-                    box.cod = box.cod.insert(dom, q_idx - l_size)
+                    gate_layer.box = widen(gate_layer.box,
+                                           q_idx - l_size)
                     new_gates.append(gate_layer)
 
                 if isinstance(gate_layer.box, Swap):
-- 
2.43.0


From 4a01374f4ec6591c3a024101020a36e7411592ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:46 +0000
Subject: [PATCH 37/44] fix: keep the order of qubits and bits when pulling a
 qubit through a swap

---
 lambeq/backend/quantum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 8dd17c6..921988d 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1434,13 +1434,13 @@ def to_circuital(diagram: Diagram) -> Diagram:
                     """
                     new_gates.append(Layer(gate_layer.left,
                                      Swap(qubit, qubit),
-                                     dom >> gate_layer.right))
-                    new_gates.append(Layer(dom >> gate_layer.left,
+                                     dom @ gate_layer.right))
+                    new_gates.append(Layer(gate_layer.left @ dom,
                                      Swap(qubit, qubit),
                                      gate_layer.right))
                     new_gates.append(Layer(gate_layer.left,
                                      Swap(qubit, qubit),
-                                     dom >> gate_layer.right))
+                                     dom @ gate_layer.right))
 
         return new_gates, q_idx
 
-- 
2.43.0


From 9d5e4b86ed568cb437dabb76cd4664d7c20cd2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:46 +0000
Subject: [PATCH 38/44] fix: number bits by output wire, not in order of
 measurement

---
 lambeq/backend/quantum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 921988d..8116736 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1707,6 +1707,9 @@ def readoff_circuital(diagram: Diagram,
             gates.append(Gate.from_box(layer.box, qi,
                                        use_sympy=use_sympy))
 
+    # Bits are in the order of the output wires, not of the measurements
+    bitmap = {qi: i for i, qi in enumerate(sorted(bitmap))}
+
     # Backends initialise every qubit to zero
     gates = [Gate.from_box(X, qi)
              for qi, state in enumerate(states) if state] + gates
-- 
2.43.0


From a4fa9270267e0e8149d3a0087dcd8e898704a149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:46 +0000
Subject: [PATCH 39/44] fix: convert rotations by zero to tket

---
 lambeq/backend/converters/tk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 71c0c7b..4e65a01 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -254,7 +254,7 @@ def to_tk(diagram: Diagram) -> Circuit:
         elif gate.gtype not in OPTYPE_MAP:
             raise NotImplementedError(f'Gate {gate.gtype} not supported')
 
-        if gate.phase:
+        if gate.phase is not None:
             op = Op.create(OPTYPE_MAP[gate.gtype], 2 * gate.phase)
         else:
             op = Op.create(OPTYPE_MAP[gate.gtype])
-- 
2.43.0


From 56db9e9f109bc0f2675b65dd33971feb6554dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:20 +0000
Subject: [PATCH 40/44] fix: export swaps of bits to tket

Measured qubits were measured in the register they were in when the
Measure occurs, although later swaps move the bit to another register,
and a swap of a bit and a qubit was pulled through as one of qubits.
---
 lambeq/backend/quantum.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 8116736..ffaee93 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1432,15 +1432,16 @@ def to_circuital(diagram: Diagram) -> Diagram:
                     Swaps are 2 wide, so if a qubit is pulled through we
                     have to use the pulled qubit as an temp ancillary.
                     """
+                    fst, snd = gate_layer.box.dom
                     new_gates.append(Layer(gate_layer.left,
-                                     Swap(qubit, qubit),
-                                     dom @ gate_layer.right))
+                                     Swap(fst, dom),
+                                     snd @ gate_layer.right))
                     new_gates.append(Layer(gate_layer.left @ dom,
-                                     Swap(qubit, qubit),
+                                     Swap(fst, snd),
                                      gate_layer.right))
                     new_gates.append(Layer(gate_layer.left,
-                                     Swap(qubit, qubit),
-                                     dom @ gate_layer.right))
+                                     Swap(dom, snd),
+                                     fst @ gate_layer.right))
 
         return new_gates, q_idx
 
@@ -1690,23 +1691,22 @@ def readoff_circuital(diagram: Diagram,
         if isinstance(layer.box, Ket):
             states.insert(len(layer.left), layer.box.bit)
         elif isinstance(layer.box, Measure):
-            qi = available_qubits[layer.left.count(qubit)]
-            available_qubits.remove(qi)
-            bitmap[qi] = len(bitmap)
+            pass  # Bits can still be swapped, so they are read off last
         elif isinstance(layer.box, Bra):
-            qi = available_qubits[layer.left.count(qubit)]
-            available_qubits.remove(qi)
+            qi = available_qubits.pop(len(layer.left))
             bitmap[qi] = len(bitmap)
             postmap[qi] = layer.box.bit
         elif isinstance(layer.box, Discard):
-            qi = available_qubits[layer.left.count(qubit)]
-            available_qubits.remove(qi)
-            discards.append(qi)
+            discards.append(available_qubits.pop(len(layer.left)))
         else:
             qi = len(layer.left)
             gates.append(Gate.from_box(layer.box, qi,
                                        use_sympy=use_sympy))
 
+    for qi, wire in zip(available_qubits, diagram.cod):
+        if wire == bit:
+            bitmap[qi] = len(bitmap)
+
     # Bits are in the order of the output wires, not of the measurements
     bitmap = {qi: i for i, qi in enumerate(sorted(bitmap))}
 
-- 
2.43.0


From 7f775adb268be061caa920ab5051f0ced087a553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:27 +0000
Subject: [PATCH 41/44] fix: from_tk accepts plain pytket circuits

Circuit.upgrade read attributes that only lambeq's circuits have.
---
 lambeq/backend/converters/tk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 4e65a01..d50458d 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -67,9 +67,9 @@ class Circuit(tk.Circuit):
         """
         result = Circuit(tk_circuit.n_qubits,
                          len(tk_circuit.bits),
-                         tk_circuit.post_selection,
-                         tk_circuit.scalar,
-                         tk_circuit.post_processing)
+                         getattr(tk_circuit, 'post_selection', None),
+                         getattr(tk_circuit, 'scalar', None),
+                         getattr(tk_circuit, 'post_processing', None))
         for gate in tk_circuit:
             name, inputs = gate.op.type.name, gate.op.params + [
                 x.index[0] for x in gate.qubits + gate.bits]
-- 
2.43.0


From 6d3b491445ef6829a2082d0cb2946dceb67c095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:27 +0000
Subject: [PATCH 42/44] fix: from_tk counts the qubits of CCX and CCZ from the
 first of them

---
 lambeq/backend/converters/tk.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index d50458d..0147297 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -326,14 +326,15 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
                 box = Controlled(Z, distance)
 
         if len(tk_gate.args) == 3:  # three qubit gate
-            controls = (tk_gate.args[0].index[0], tk_gate.args[1].index[0])
-            target = tk_gate.args[2].index[0]
-            span = max(controls + (target,)) - min(controls + (target,)) + 1
+            indices = [arg.index[0] for arg in tk_gate.args]
+            offset = min(indices)
+            span = max(indices) - offset + 1
+            # Controls and target, counted from the first of the qubits
+            qubits = [index - offset for index in indices]
             if name == 'CCX':
-                box = Id(qubit**span).apply_gate(CCX, *controls, target)
+                box = Id(qubit**span).apply_gate(CCX, *qubits)
             elif name == 'CCZ':
-                box = Id(qubit**span).apply_gate(CCZ, *controls, target)
-            offset = min(controls + (target,))
+                box = Id(qubit**span).apply_gate(CCZ, *qubits)
 
         if box is None:
             raise NotImplementedError
-- 
2.43.0


From cde5bac2ebce6855f5dd1775ef9a77a57f858f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:27 +0000
Subject: [PATCH 43/44] fix: from_tk orders bits by index and measures after
 all gates

Bits came out in the order of their qubits instead of by index, and a
gate across a qubit already measured did not compose.
---
 lambeq/backend/converters/tk.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 0147297..f641443 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -343,6 +343,7 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
 
     circuit = Ket(*(0, ) * n_qubits).to_diagram()
     bras = {}
+    bits: dict[int, int] = {}
     for tk_gate in tk_circ.get_commands():
         if tk_gate.op.type.name == 'Measure':
             offset: int = tk_gate.qubits[0].index[0]
@@ -350,18 +351,25 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
             if bit_index in tk_circ.post_selection:
                 bras[offset] = tk_circ.post_selection[bit_index]
                 continue  # post selection happens at the end
-            left = circuit.cod[:offset]
-            right = circuit.cod[offset + 1:]
-            circuit = circuit >> left @ Measure() @ right
+            bits[offset] = bit_index  # so do measurements
         else:
+            measured = bits.keys() | bras.keys()
+            if not measured.isdisjoint(q.index[0] for q in tk_gate.qubits):
+                raise NotImplementedError('Gates after measurements are '
+                                          'not supported')
             box, offset = box_and_offset_from_tk(tk_gate)
             left = circuit.cod[:offset]
             right = circuit.cod[offset + len(box.dom):]
             circuit = circuit >> left @ box @ right
     circuit = circuit >> Id().tensor(*(
         Bra(bras[i]) if i in bras
-        else Discard() if x == qubit else Id(bit)
-        for i, x in enumerate(circuit.cod)))
+        else Measure() if i in bits else Discard()
+        for i in range(n_qubits)))
+    # Bits are now in the order of the qubits, put them in their own
+    bit_order = [bits[i] for i in sorted(bits)]
+    if bit_order != sorted(bit_order):
+        circuit = circuit >> Diagram.permutation(
+            circuit.cod, [bit_order.index(i) for i in sorted(bit_order)])
     if tk_circ.scalar != 1:
         circuit = circuit @ Scalar(np.sqrt(abs(tk_circ.scalar)))
     return circuit >> tk_circ.post_processing  # type: ignore [return-value]
-- 
2.43.0


From 75acb0b4666824d77523313a85cdc6ca92083fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:49 +0000
Subject: [PATCH 44/44] fix: from_tk scales symbols by floats, so that circuits
 can be evaluated

---
 lambeq/backend/converters/tk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index f641443..8709523 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -205,7 +205,7 @@ def _tk_to_lmbq_param(theta):
         if not isinstance(symbol, sympy.Symbol):
             raise ValueError('Parameter must be a (possibly scaled) sympy'
                              'Symbol')
-        return Symbol(symbol.name, scale=scale)
+        return Symbol(symbol.name, scale=float(scale))
     else:
         raise ValueError('Parameter must be a (possibly scaled) sympy Symbol')
 
-- 
2.43.0

