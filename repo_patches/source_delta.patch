From 42ba9c750834909e14bfb86fa437fd3706a3b3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:14 +0000
Subject: [PATCH 01/20] fix: restore the validation level when the block raises

---
 gemd/entity/bounds_validation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gemd/entity/bounds_validation.py b/gemd/entity/bounds_validation.py
index 3b8c039..eb79bf7 100644
--- a/gemd/entity/bounds_validation.py
+++ b/gemd/entity/bounds_validation.py
@@ -39,7 +39,7 @@ def validation_level(level: WarningLevel):
     global BOUNDS_VALIDATION
     # Swap values and store
     old_value, BOUNDS_VALIDATION = BOUNDS_VALIDATION, WarningLevel(level)
-    yield old_value  # Since we know the new level, the old one may be useful
-
-    # Restore previous value
-    BOUNDS_VALIDATION = old_value
+    try:
+        yield old_value  # Since we know the new level, the old one may be useful
+    finally:  # Restore previous value, even if the block raised
+        BOUNDS_VALIDATION = old_value
-- 
2.43.0


From 4762ae3b8bfe3eeddb19781cb5cde696ef9972a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:14 +0000
Subject: [PATCH 02/20] fix: accept valid absolute quantities at the FATAL
 validation level

---
 gemd/entity/object/has_quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/object/has_quantities.py b/gemd/entity/object/has_quantities.py
index 5c366eb..d6e9d2b 100644
--- a/gemd/entity/object/has_quantities.py
+++ b/gemd/entity/object/has_quantities.py
@@ -120,6 +120,6 @@ class HasQuantities(object):
                 if level == WarningLevel.WARNING:
                     for message in messages:
                         logger.warning(message)
-                else:
+                elif messages:
                     raise ValueError("; ".join(messages))
             self._absolute_quantity = absolute_quantity
-- 
2.43.0


From 220ec83f66594adc3743653f636e1de569f68e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:14 +0000
Subject: [PATCH 03/20] fix: allow setting the value of an attribute whose
 template is a link

---
 gemd/entity/attribute/base_attribute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/attribute/base_attribute.py b/gemd/entity/attribute/base_attribute.py
index c38aa02..8820589 100644
--- a/gemd/entity/attribute/base_attribute.py
+++ b/gemd/entity/attribute/base_attribute.py
@@ -77,7 +77,7 @@ class BaseAttribute(DictSerializable):
         if value is None:
             self._value = None
         elif isinstance(value, BaseValue):
-            if self.template is not None:
+            if isinstance(self.template, AttributeTemplate):
                 self._check(self.template, value)
             self._value = value
         else:
-- 
2.43.0


From 5855592138f46ba50106fbf7bb4b79463024761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:14 +0000
Subject: [PATCH 04/20] fix: tolerate links when matching attributes to object
 templates by name

---
 gemd/entity/template/has_condition_templates.py | 3 ++-
 gemd/entity/template/has_parameter_templates.py | 3 ++-
 gemd/entity/template/has_property_templates.py  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gemd/entity/template/has_condition_templates.py b/gemd/entity/template/has_condition_templates.py
index 6714b10..d8074ef 100644
--- a/gemd/entity/template/has_condition_templates.py
+++ b/gemd/entity/template/has_condition_templates.py
@@ -77,7 +77,8 @@ class HasConditionTemplates(HasDependencies):
             attr, bnd = next((x for x in self.conditions if condition.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.conditions if condition.name == x[0].name),
+            attr, bnd = next((x for x in self.conditions
+                              if isinstance(x[0], ConditionTemplate) and condition.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
diff --git a/gemd/entity/template/has_parameter_templates.py b/gemd/entity/template/has_parameter_templates.py
index 423c3eb..a004ca1 100644
--- a/gemd/entity/template/has_parameter_templates.py
+++ b/gemd/entity/template/has_parameter_templates.py
@@ -77,7 +77,8 @@ class HasParameterTemplates(HasDependencies):
             attr, bnd = next((x for x in self.parameters if parameter.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.parameters if parameter.name == x[0].name),
+            attr, bnd = next((x for x in self.parameters
+                              if isinstance(x[0], ParameterTemplate) and parameter.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
diff --git a/gemd/entity/template/has_property_templates.py b/gemd/entity/template/has_property_templates.py
index 0495fd2..818da97 100644
--- a/gemd/entity/template/has_property_templates.py
+++ b/gemd/entity/template/has_property_templates.py
@@ -79,7 +79,8 @@ class HasPropertyTemplates(HasDependencies):
             attr, bnd = next((x for x in self.properties if prop.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.properties if prop.name == x[0].name),
+            attr, bnd = next((x for x in self.properties
+                              if isinstance(x[0], PropertyTemplate) and prop.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
-- 
2.43.0


From 4bea973e293b83e7c3021e1a47bbd72478632e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:14 +0000
Subject: [PATCH 05/20] fix: keep the contents of iterators assigned to
 validated lists

---
 gemd/entity/template/has_condition_templates.py |  1 +
 gemd/entity/template/has_parameter_templates.py |  1 +
 gemd/entity/template/has_property_templates.py  |  1 +
 gemd/entity/valid_list.py                       | 14 +++++++-------
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/gemd/entity/template/has_condition_templates.py b/gemd/entity/template/has_condition_templates.py
index d8074ef..d852621 100644
--- a/gemd/entity/template/has_condition_templates.py
+++ b/gemd/entity/template/has_condition_templates.py
@@ -64,6 +64,7 @@ class HasConditionTemplates(HasDependencies):
 
         """
         if isinstance(conditions, Iterable):
+            conditions = list(conditions)  # In case it's an iterator
             if any(isinstance(x, BaseBounds) for x in conditions):
                 conditions = [conditions]  # It's a template/bounds tuple (probably)
         self._conditions = validate_list(conditions,
diff --git a/gemd/entity/template/has_parameter_templates.py b/gemd/entity/template/has_parameter_templates.py
index a004ca1..22e5528 100644
--- a/gemd/entity/template/has_parameter_templates.py
+++ b/gemd/entity/template/has_parameter_templates.py
@@ -64,6 +64,7 @@ class HasParameterTemplates(HasDependencies):
 
         """
         if isinstance(parameters, Iterable):
+            parameters = list(parameters)  # In case it's an iterator
             if any(isinstance(x, BaseBounds) for x in parameters):
                 parameters = [parameters]  # It's a template/bounds tuple (probably)
         self._parameters = validate_list(parameters,
diff --git a/gemd/entity/template/has_property_templates.py b/gemd/entity/template/has_property_templates.py
index 818da97..bd56829 100644
--- a/gemd/entity/template/has_property_templates.py
+++ b/gemd/entity/template/has_property_templates.py
@@ -62,6 +62,7 @@ class HasPropertyTemplates(HasDependencies):
 
         """
         if isinstance(properties, Iterable):
+            properties = list(properties)  # In case it's an iterator
             if any(isinstance(x, BaseBounds) for x in properties):
                 properties = [properties]  # It's a template/bounds tuple (probably)
         self._properties = validate_list(properties,
diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index 5264782..bfa2163 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -42,16 +42,16 @@ class ValidList(list):
         for elem in self._content_type:
             if not isinstance(elem, type):
                 raise TypeError('Content filters must be types')
-        for value in _list:
+        cache = list(_list)  # Iterate only once, in case it's an iterator
+        for value in cache:
             self._validate(value)
 
         self._trigger = None
-        cache = list(_list)
         if trigger is not None:
             if not callable(trigger):
                 raise TypeError('Triggers must be callable')
             self._trigger = trigger
-            for i, value in enumerate(_list):
+            for i, value in enumerate(cache):
                 result = self._trigger(value)
                 if result is not None:
                     cache[i] = result
@@ -148,13 +148,13 @@ class ValidList(list):
             `list_` is appended at the end of the list, if all its entries are valid.
 
         """
-        if isinstance(list_, Iterable):
-            for value in list_:
-                self._validate(value)
-        else:
+        if not isinstance(list_, Iterable):
             raise TypeError("'{}' object is not iterable".format(type(list_)))
 
         cache = list(list_)  # So that we don't edit a passed reference
+        for value in cache:
+            self._validate(value)
+
         if self._trigger is not None:
             for i, value in enumerate(cache):
                 result = self._trigger(value)
-- 
2.43.0


From 0d05a636f5a7720f7c0497d7a8acd6924a0f5f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:14 +0000
Subject: [PATCH 06/20] fix: validate in-place addition and slice assignment of
 validated lists

---
 gemd/entity/valid_list.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index bfa2163..de78741 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -100,11 +100,21 @@ class ValidList(list):
             `value` is inserted into the list at position `index`, if it is valid.
 
         """
-        self._validate(value)
-        if self._trigger is not None:
-            result = self._trigger(value)
-            if result is not None:
-                value = result
+        if isinstance(index, slice):
+            value = list(value)
+            for x in value:
+                self._validate(x)
+            if self._trigger is not None:
+                for i, x in enumerate(value):
+                    result = self._trigger(x)
+                    if result is not None:
+                        value[i] = result
+        else:
+            self._validate(value)
+            if self._trigger is not None:
+                result = self._trigger(value)
+                if result is not None:
+                    value = result
         super().__setitem__(index, value)
 
     def append(self, value):
@@ -163,6 +173,11 @@ class ValidList(list):
 
         super().extend(cache)
 
+    def __iadd__(self, list_):
+        """Implement self += list_, with the same validation as extend."""
+        self.extend(list_)
+        return self
+
     def insert(self, i, value):
         """
         Insert a value at a given position, if it is one of the allowed types.
-- 
2.43.0


From 3a37e1b01d6858fe0928dee366a3da6430b97a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:33 +0000
Subject: [PATCH 07/20] fix: keep two-way links consistent when an assignment
 is rejected or objects compare equal

---
 gemd/entity/object/ingredient_run.py  | 18 ++++++++---------
 gemd/entity/object/ingredient_spec.py | 18 ++++++++---------
 gemd/entity/object/material_run.py    | 14 +++++--------
 gemd/entity/object/material_spec.py   | 16 ++++++---------
 gemd/entity/object/measurement_run.py | 15 +++++++-------
 gemd/entity/setters.py                | 29 +++++++++++++++++++++++++--
 6 files changed, 64 insertions(+), 46 deletions(-)

diff --git a/gemd/entity/object/ingredient_run.py b/gemd/entity/object/ingredient_run.py
index 4be4a69..c073f95 100644
--- a/gemd/entity/object/ingredient_run.py
+++ b/gemd/entity/object/ingredient_run.py
@@ -10,7 +10,7 @@ from gemd.entity.value.continuous_value import ContinuousValue
 from gemd.entity.dict_serializable import DictSerializable
 from gemd.entity.file_link import FileLink
 from gemd.entity.link_by_uid import LinkByUID
-from gemd.entity.setters import validate_list
+from gemd.entity.setters import validate_list, remove_from_list
 
 from typing import Optional, Union, Iterable, List, Mapping, Type, Any
 
@@ -123,17 +123,17 @@ class IngredientRun(BaseObject,
 
     @process.setter
     def process(self, process: Union[ProcessRun, LinkByUID]):
+        if process is not None and not isinstance(process, (LinkByUID, ProcessRun)):
+            raise TypeError("IngredientRun.process must be a ProcessRun or "
+                            "LinkByUID: {}".format(process))
+
         if isinstance(self._process, ProcessRun):
             # This could throw an exception if it's not in the list, but then something else broke
-            self._process.ingredients.remove(self)
+            remove_from_list(self._process.ingredients, self)
 
-        if process is None or isinstance(process, (LinkByUID, ProcessRun)):
-            self._process = process
-            if isinstance(process, ProcessRun):
-                process.ingredients.append(self)
-        else:
-            raise TypeError("IngredientRun.process must be a ProcessRun or "
-                            "LinkByUID: {}".format(process))
+        self._process = process
+        if isinstance(process, ProcessRun):
+            process.ingredients.append(self)
 
     @staticmethod
     def _spec_type() -> Type:
diff --git a/gemd/entity/object/ingredient_spec.py b/gemd/entity/object/ingredient_spec.py
index 7a2f8d4..632cd99 100644
--- a/gemd/entity/object/ingredient_spec.py
+++ b/gemd/entity/object/ingredient_spec.py
@@ -8,7 +8,7 @@ from gemd.entity.object.has_template import HasTemplate
 from gemd.entity.value.continuous_value import ContinuousValue
 from gemd.entity.file_link import FileLink
 from gemd.entity.link_by_uid import LinkByUID
-from gemd.entity.setters import validate_list
+from gemd.entity.setters import validate_list, remove_from_list
 
 from typing import Optional, Union, Iterable, List, Mapping, Type
 
@@ -117,17 +117,17 @@ class IngredientSpec(BaseObject,
     @process.setter
     def process(self, process: Union[ProcessSpec, LinkByUID]):
         """Set the process."""
+        if process is not None and not isinstance(process, (LinkByUID, ProcessSpec)):
+            raise TypeError("IngredientSpec.process must be a ProcessSpec or "
+                            "LinkByUID: {}".format(process))
+
         if isinstance(self._process, ProcessSpec):
             # This could throw an exception if it's not in the list, but then something else broke
-            self._process.ingredients.remove(self)
+            remove_from_list(self._process.ingredients, self)
 
-        if process is None or isinstance(process, (LinkByUID, ProcessSpec)):
-            self._process = process
-            if isinstance(process, ProcessSpec):
-                process.ingredients.append(self)
-        else:
-            raise TypeError("IngredientSpec.process must be a ProcessSpec or "
-                            "LinkByUID: {}".format(process))
+        self._process = process
+        if isinstance(process, ProcessSpec):
+            process.ingredients.append(self)
 
     @property
     def template(self):
diff --git a/gemd/entity/object/material_run.py b/gemd/entity/object/material_run.py
index a99fd70..d455684 100644
--- a/gemd/entity/object/material_run.py
+++ b/gemd/entity/object/material_run.py
@@ -74,17 +74,13 @@ class MaterialRun(BaseObject, HasSpec, HasProcess, typ="material_run", skip={"_m
 
     @process.setter
     def process(self, process: Union[ProcessRun, LinkByUID]):
-        if self.process is not None and isinstance(self.process, ProcessRun):
+        if process is not None and not isinstance(process, (LinkByUID, ProcessRun)):
+            raise TypeError("process must be a ProcessRun or LinkByUID: {}".format(process))
+        if isinstance(self.process, ProcessRun) and self.process._output_material is self:
             self.process._output_material = None
-        if process is None:
-            self._process = None
-        elif isinstance(process, LinkByUID):
-            self._process = process
-        elif isinstance(process, ProcessRun):
+        self._process = process
+        if isinstance(process, ProcessRun):
             process._output_material = self
-            self._process = process
-        else:
-            raise TypeError("process must be a ProcessRun or LinkByUID: {}".format(process))
 
     @property
     def measurements(self) -> List[MeasurementRunType]:
diff --git a/gemd/entity/object/material_spec.py b/gemd/entity/object/material_spec.py
index 3410028..f136685 100644
--- a/gemd/entity/object/material_spec.py
+++ b/gemd/entity/object/material_spec.py
@@ -95,18 +95,14 @@ class MaterialSpec(BaseObject, HasTemplate, HasProcess, HasProperties, typ="mate
         """
         from gemd.entity.object.process_spec import ProcessSpec
         from gemd.entity.link_by_uid import LinkByUID
-        if self.process is not None and isinstance(self.process, ProcessSpec):
-            self.process._output_material = None
-        if process is None:
-            self._process = None
-        elif isinstance(process, LinkByUID):
-            self._process = process
-        elif isinstance(process, ProcessSpec):
-            process._output_material = self
-            self._process = process
-        else:
+        if process is not None and not isinstance(process, (LinkByUID, ProcessSpec)):
             raise TypeError(f"process must be an instance of ProcessSpec or LinkByUID; "
                             f"instead received type {type(process)}: {process}")
+        if isinstance(self.process, ProcessSpec) and self.process._output_material is self:
+            self.process._output_material = None
+        self._process = process
+        if isinstance(process, ProcessSpec):
+            process._output_material = self
 
     @staticmethod
     def _template_type() -> Type:
diff --git a/gemd/entity/object/measurement_run.py b/gemd/entity/object/measurement_run.py
index 60e4230..ab8eb6f 100644
--- a/gemd/entity/object/measurement_run.py
+++ b/gemd/entity/object/measurement_run.py
@@ -13,6 +13,7 @@ from gemd.entity.attribute.property import Property
 from gemd.entity.source.performed_source import PerformedSource
 from gemd.entity.file_link import FileLink
 from gemd.entity.link_by_uid import LinkByUID
+from gemd.entity.setters import remove_from_list
 
 from typing import Optional, Union, Iterable, Mapping, Type
 
@@ -91,16 +92,16 @@ class MeasurementRun(BaseObject, HasMaterial, HasSpec, HasConditions, HasPropert
 
     @material.setter
     def material(self, value: Union[MaterialRun, LinkByUID]):
+        if value is not None and not isinstance(value, (MaterialRun, LinkByUID)):
+            raise TypeError("material must be a MaterialRun or LinkByUID: {}".format(value))
+
         if isinstance(self._material, MaterialRun):
             # This could throw an exception if it's not in the list, but then something else broke
-            self._material.measurements.remove(self)
+            remove_from_list(self._material.measurements, self)
 
-        if value is None or isinstance(value, (MaterialRun, LinkByUID)):
-            self._material = value
-            if isinstance(value, MaterialRun):
-                value.measurements.append(self)
-        else:
-            raise TypeError("material must be a MaterialRun or LinkByUID: {}".format(value))
+        self._material = value
+        if isinstance(value, MaterialRun):
+            value.measurements.append(self)
 
     @staticmethod
     def _spec_type() -> Type:
diff --git a/gemd/entity/setters.py b/gemd/entity/setters.py
index 6a86e64..7e79132 100644
--- a/gemd/entity/setters.py
+++ b/gemd/entity/setters.py
@@ -1,9 +1,9 @@
 """Methods for setting and validating."""
 from gemd.entity.valid_list import ValidList
 
-from typing import Union, Iterable, Optional, Callable, Type, TypeVar
+from typing import Any, Union, Iterable, Optional, Callable, Type, TypeVar
 
-__all__ = ["validate_list", "validate_str"]
+__all__ = ["validate_list", "validate_str", "remove_from_list"]
 
 T = TypeVar('T')
 
@@ -62,3 +62,28 @@ def validate_str(obj) -> str:
     if not isinstance(obj, str):
         raise TypeError("Expected a string but got {} instead".format(type(obj)))
     return obj
+
+
+def remove_from_list(list_: list, obj: Any):
+    """
+    Remove an object itself from a list, rather than the first object that compares equal to it.
+
+    Parameters
+    ----------
+    list_: list
+        The list to remove the object from.
+    obj: Any
+        The object to remove.  If the object itself is not in the list, the first element that
+        is equal to it (such as a link to it) is removed instead.
+
+    Raises
+    -------
+    ValueError
+        If neither the object nor anything equal to it is in the list.
+
+    """
+    for i, x in enumerate(list_):
+        if x is obj:
+            del list_[i]
+            return
+    list_.remove(obj)
-- 
2.43.0


From e4e1f7165d698914171a71b5e711f64783e5bf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:08 +0000
Subject: [PATCH 08/20] fix: keep identifier maps case-consistent through
 setdefault, |= and conflicting updates

---
 gemd/entity/base_entity.py           |  4 +--
 gemd/entity/case_insensitive_dict.py | 42 ++++++++++++++++++++--------
 2 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index 06d169e..9f05c83 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -54,9 +54,9 @@ class BaseEntity(DictSerializable):
         if uids is None:
             self._uids = CaseInsensitiveDict()
         elif isinstance(uids, MutableMapping):
-            self._uids = CaseInsensitiveDict(**uids)
+            self._uids = CaseInsensitiveDict(uids)
         else:
-            self._uids = CaseInsensitiveDict(**{uids[0]: uids[1]})
+            self._uids = CaseInsensitiveDict({uids[0]: uids[1]})
 
     def add_uid(self, scope: str, uid: str):
         """
diff --git a/gemd/entity/case_insensitive_dict.py b/gemd/entity/case_insensitive_dict.py
index 6aac2b3..48fe26a 100644
--- a/gemd/entity/case_insensitive_dict.py
+++ b/gemd/entity/case_insensitive_dict.py
@@ -157,25 +157,45 @@ class CaseInsensitiveDict(dict):
             Alternatively, the set of keyword arguments
 
         """
-        if mapping is None:
-            mapping = dict()
-            no_mapping = True
-        else:
-            no_mapping = False
-        for key in list(mapping.keys()) + list(kwargs.keys()):
+        updates = CaseInsensitiveDict(mapping, **kwargs)  # Raises if it is not self-consistent
+        for key in updates:
             if key.lower() in self.lowercase_dict:
                 prev = self.lowercase_dict[key.lower()]
                 if prev != key:
                     raise ValueError(
                         "Key '{}' already exists in dict with different case: "
                         "'{}'".format(key, prev))
-        if no_mapping:
-            super().update(**kwargs)
-        else:
-            super().update(mapping, **kwargs)
-        for key in list(mapping.keys()) + list(kwargs.keys()):
+        super().update(updates)
+        for key in updates:
             self._register_key(key)
 
+    def __ior__(self, other: Mapping[str, Any]) -> 'CaseInsensitiveDict':
+        """Implement self |= other, with the same checks as update."""
+        self.update(other)
+        return self
+
+    def setdefault(self, key: str, default: Any = None) -> Any:
+        """
+        Get the value for a given case-insensitive key, storing the default if it is not present.
+
+        Parameters
+        ----------
+        key: str
+            The key to look up (possibly with a different casing).
+
+        default: Any
+            The value to store and return if the key is not present.
+
+        Returns
+        -------
+        Any
+            The value associated with the case-insensitive version of `key`.
+
+        """
+        if key not in self:
+            self[key] = default
+        return self[key]
+
     def _register_key(self, key: str) -> None:
         """
         Register a key to the dictionary.
-- 
2.43.0


From 187fc1c5a24cd25ca52c6862b28a44ffcdcc00a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:00 +0000
Subject: [PATCH 09/20] fix: accept integer bounds that a float cannot
 represent

---
 gemd/entity/bounds/integer_bounds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/bounds/integer_bounds.py b/gemd/entity/bounds/integer_bounds.py
index bd27b99..93d06fa 100644
--- a/gemd/entity/bounds/integer_bounds.py
+++ b/gemd/entity/bounds/integer_bounds.py
@@ -37,7 +37,7 @@ class IntegerBounds(BaseBounds, typ="integer_bounds"):
     @lower_bound.setter
     def lower_bound(self, value: int):
         """Set the lower endpoint of the permitted range."""
-        if value is None or not isfinite(value) or int(value) != float(value):
+        if value is None or not isfinite(value) or int(value) != value:
             raise ValueError(f"Lower bound must be given, integer and finite: {value}")
         if self.upper_bound is not None and value > self.upper_bound:
             raise ValueError(f"Upper bound ({self.upper_bound}) must be "
@@ -52,7 +52,7 @@ class IntegerBounds(BaseBounds, typ="integer_bounds"):
     @upper_bound.setter
     def upper_bound(self, value: int):
         """Set the upper endpoint of the permitted range."""
-        if value is None or not isfinite(value) or int(value) != float(value):
+        if value is None or not isfinite(value) or int(value) != value:
             raise ValueError(f"Upper bound must be given, integer and finite: {value}")
         if self.lower_bound is not None and value < self.lower_bound:
             raise ValueError(f"Upper bound ({value}) must be "
-- 
2.43.0


From 2d9167597adf5652c330bfdf39085d0a674b09c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:08 +0000
Subject: [PATCH 10/20] fix: normalise only the prefix of an InChI

---
 gemd/entity/value/inchi_value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/value/inchi_value.py b/gemd/entity/value/inchi_value.py
index 4e7ba26..ba04cb2 100644
--- a/gemd/entity/value/inchi_value.py
+++ b/gemd/entity/value/inchi_value.py
@@ -32,11 +32,11 @@ class InChI(MolecularValue, typ="inchi"):
             self._inchi = None
         elif isinstance(value, str):
             if value.lower().startswith('1s/'):
-                value = value.replace(value[:2], 'InChI=1S')
+                value = 'InChI=1S' + value[2:]
             elif not value.lower().startswith('inchi'):
                 value = f"InChI=1S/{value}"
             elif not value.startswith('InChI'):
-                value = value.replace(value[:5], 'InChI')
+                value = 'InChI' + value[5:]
             self._inchi = value
         else:
             raise TypeError("InChI must be given as a string; got {}".format(type(value)))
-- 
2.43.0


From 5f3893f650674a84671d3c89f556b803989218d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:20 +0000
Subject: [PATCH 11/20] fix: accept integer quantities in add_edge

---
 gemd/builders/impl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gemd/builders/impl.py b/gemd/builders/impl.py
index 395755d..bf0e513 100644
--- a/gemd/builders/impl.py
+++ b/gemd/builders/impl.py
@@ -159,22 +159,22 @@ def add_edge(input_material: MaterialRun,
                                       )
 
     if mass_fraction is not None:
-        if isinstance(mass_fraction, float):
+        if isinstance(mass_fraction, (int, float)):
             mass_fraction = NominalReal(nominal=mass_fraction, units='')
         my_ingredient_run.mass_fraction = mass_fraction
 
     if number_fraction is not None:
-        if isinstance(number_fraction, float):
+        if isinstance(number_fraction, (int, float)):
             number_fraction = NominalReal(nominal=number_fraction, units='')
         my_ingredient_run.number_fraction = number_fraction
 
     if volume_fraction is not None:
-        if isinstance(volume_fraction, float):
+        if isinstance(volume_fraction, (int, float)):
             volume_fraction = NominalReal(nominal=volume_fraction, units='')
         my_ingredient_run.volume_fraction = volume_fraction
 
     if absolute_quantity is not None:
-        if isinstance(absolute_quantity, float):
+        if isinstance(absolute_quantity, (int, float)):
             if absolute_units is None:
                 raise ValueError("Absolute Units are required if Absolute Quantity is not a Value")
             absolute_quantity = NominalReal(nominal=absolute_quantity, units=absolute_units)
-- 
2.43.0


From dd52daea686e4a7e215d844c37493d2338c1baca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:28 +0000
Subject: [PATCH 12/20] fix: traverse tuples that hold lists and do not
 conflate equal scalars when substituting

---
 gemd/util/impl.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/gemd/util/impl.py b/gemd/util/impl.py
index 3e808a8..7ad0eea 100644
--- a/gemd/util/impl.py
+++ b/gemd/util/impl.py
@@ -85,6 +85,15 @@ def _cached_issubclass(
     return issubclass(cls, class_or_tuple)
 
 
+def _is_hashable(obj: object) -> bool:
+    """Whether an object really can be hashed; a tuple that contains a list cannot be."""
+    try:
+        hash(obj)
+    except TypeError:
+        return False
+    return True
+
+
 def _substitute(thing: Any,
                 sub: Callable[[object], object],
                 applies: Callable[[object], bool],
@@ -107,12 +116,14 @@ def _substitute(thing: Any,
     """
     if visited is None:
         visited = {}
-    if thing.__hash__ is not None and thing in visited:
+    # Only recycle objects; equal values (1, 1.0, True) and containers are not interchangeable
+    recycle = cached_isinstance(thing, DictSerializable) and _is_hashable(thing)
+    if recycle and thing in visited:
         return visited[thing]
 
     if applies(thing):
         replacement = sub(thing)
-        if thing.__hash__ is not None:
+        if recycle:
             visited[thing] = replacement
     else:
         replacement = thing
@@ -131,7 +142,7 @@ def _substitute(thing: Any,
     else:
         new = replacement
 
-    if thing.__hash__ is not None:
+    if recycle:
         visited[thing] = new
 
     return new
@@ -158,9 +169,9 @@ def _substitute_inplace(thing: Any,
 
     """
     def _key(obj):
-        if cached_isinstance(obj, (float, int, str)):
+        if cached_isinstance(obj, (float, int, str, tuple)):
             return None
-        elif obj.__hash__ is not None:
+        elif _is_hashable(obj):
             return obj
         elif cached_isinstance(obj, Iterable) and not cached_isinstance(obj, ByteString):
             return id(obj)
@@ -183,7 +194,6 @@ def _substitute_inplace(thing: Any,
             thing[i] = _substitute_inplace(x, sub, applies, visited)
     elif cached_isinstance(thing, Tuple):  # Tuples are immutable; regenerate
         thing = tuple(_substitute_inplace(x, sub, applies, visited) for x in thing)
-        visited[orig_key] = thing  # We mutated it
     elif cached_isinstance(thing, Mapping):  # Change dict in place, both keys & values
         remove = set()  # Store todos because can't mutate a dict in a loop
         update = dict()
@@ -418,7 +428,7 @@ def recursive_foreach(obj: Union[Iterable, DictSerializable],
 
     while queue:
         this = queue.pop()
-        if this.__hash__ is not None:
+        if _is_hashable(this):
             if this in seen:
                 continue
             else:
@@ -477,7 +487,7 @@ def recursive_flatmap(obj: Union[Iterable, DictSerializable],
     while queue:
         this = queue.pop()
 
-        if this.__hash__ is not None:
+        if _is_hashable(this):
             if this in seen:
                 continue
             else:
-- 
2.43.0


From 440242cd86e2570f3ac4f77f4d82a4f7ac9ed4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:53 +0000
Subject: [PATCH 13/20] fix: a rejected set of categories or components leaves
 the bounds as they were

---
 gemd/entity/bounds/categorical_bounds.py | 11 +++++------
 gemd/entity/bounds/composition_bounds.py | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/gemd/entity/bounds/categorical_bounds.py b/gemd/entity/bounds/categorical_bounds.py
index 20be8ac..7075daf 100644
--- a/gemd/entity/bounds/categorical_bounds.py
+++ b/gemd/entity/bounds/categorical_bounds.py
@@ -32,16 +32,15 @@ class CategoricalBounds(BaseBounds, typ="categorical_bounds"):
     @categories.setter
     def categories(self, categories: Optional[Iterable[str]]):
         if categories is None:
-            self._categories = set()
-        elif isinstance(categories, array_like()):
-            self._categories = set(categories)
-        elif isinstance(categories, set):
-            self._categories = categories
+            result = set()
+        elif isinstance(categories, array_like()) or isinstance(categories, set):
+            result = set(categories)
         else:
             raise ValueError("Categories must be a list, tuple, or set")
 
-        if not all(isinstance(x, str) for x in self.categories):
+        if not all(isinstance(x, str) for x in result):
             raise ValueError("All the categories must be strings")
+        self._categories = result
 
     def contains(self, bounds: Union[BaseBounds, BaseValueType]) -> bool:
         """
diff --git a/gemd/entity/bounds/composition_bounds.py b/gemd/entity/bounds/composition_bounds.py
index 3b2ff8f..2cdace0 100644
--- a/gemd/entity/bounds/composition_bounds.py
+++ b/gemd/entity/bounds/composition_bounds.py
@@ -34,16 +34,15 @@ class CompositionBounds(BaseBounds, typ="composition_bounds"):
     def components(self, value: Iterable[str]):
         """Set collection of the components that are allowed in the composition."""
         if value is None:
-            self._components = set()
-        elif isinstance(value, array_like()):
-            self._components = set(value)
-        elif isinstance(value, set):
-            self._components = value
+            result = set()
+        elif isinstance(value, array_like()) or isinstance(value, set):
+            result = set(value)
         else:
             raise ValueError("Components must be a list, tuple, or set: {}".format(value))
 
-        if not all(isinstance(x, str) for x in self.components):
+        if not all(isinstance(x, str) for x in result):
             raise ValueError("All the components must be strings")
+        self._components = result
 
     def contains(self, bounds: Union[BaseBounds, BaseValueType]) -> bool:
         """
-- 
2.43.0


From 2b6fc908c4a258af328f8d7e1437c34267fff841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:33 +0000
Subject: [PATCH 14/20] fix: updating molecular structure bounds rejects
 operands of another kind

---
 gemd/entity/bounds/molecular_structure_bounds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/bounds/molecular_structure_bounds.py b/gemd/entity/bounds/molecular_structure_bounds.py
index 4586531..563a340 100644
--- a/gemd/entity/bounds/molecular_structure_bounds.py
+++ b/gemd/entity/bounds/molecular_structure_bounds.py
@@ -92,7 +92,7 @@ class MolecularStructureBounds(BaseBounds, typ="molecular_structure_bounds"):
             :func:`~gemd.entity.base_bounds.BaseBounds._to_bounds` method.
 
         """
-        pass  # This is a no-op for Molecular structure
+        self.union(*others)  # Check types; otherwise a no-op for Molecular structure
 
     def as_dict(self):
         """
-- 
2.43.0


From 6a7e1a2b7f9620587c1936bbdaaa39aede0a66f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:12 +0000
Subject: [PATCH 15/20] fix: undefined (NaN) probabilities do not sum to one

---
 gemd/entity/value/discrete_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/value/discrete_categorical.py b/gemd/entity/value/discrete_categorical.py
index 6d3c1c1..9d075e9 100644
--- a/gemd/entity/value/discrete_categorical.py
+++ b/gemd/entity/value/discrete_categorical.py
@@ -42,7 +42,7 @@ class DiscreteCategorical(CategoricalValue, typ="discrete_categorical"):
         elif isinstance(probabilities, str):
             self._probabilities = {validate_str(probabilities): 1.0}
         elif isinstance(probabilities, dict):
-            if abs(sum(probabilities.values()) - 1.0) > 1.0e-9:
+            if not abs(sum(probabilities.values()) - 1.0) <= 1.0e-9:  # Also catches NaN
                 raise ValueError("probabilities must sum to 1.0")
             self._probabilities = {validate_str(k): v for k, v in probabilities.items()}
         else:
-- 
2.43.0


From 769919152c29d80c349c6f6b49a596c981c39dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:42 +0000
Subject: [PATCH 16/20] fix: repeated list elements are matched one to one when
 comparing entities

---
 gemd/entity/base_entity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index 9f05c83..0fed2fa 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -190,6 +190,8 @@ class BaseEntity(DictSerializable):
                                 found = None
                     else:
                         found = x in that_list
+                        if found:
+                            i_found = that_list.index(x)
                     if found is True:
                         if i_found is not None:
                             del that_list[i_found]
-- 
2.43.0


From df352ead9ad4d93f201253cd0ea85c52c99a0471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:52 +0000
Subject: [PATCH 17/20] fix: a field called self is unrecognised, not passed to
 the constructor

---
 gemd/entity/dict_serializable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/dict_serializable.py b/gemd/entity/dict_serializable.py
index 777ed1a..1de261e 100644
--- a/gemd/entity/dict_serializable.py
+++ b/gemd/entity/dict_serializable.py
@@ -88,7 +88,7 @@ class DictSerializable(ABC, metaclass=DictSerializableMeta):
     @functools.lru_cache(maxsize=1024)
     def _init_sig(cls) -> List[str]:
         """Internal method for generating the argument names for the class init method."""
-        expected_arg_names = inspect.getfullargspec(cls.__init__).args
+        expected_arg_names = inspect.getfullargspec(cls.__init__).args[1:]  # Not self
         expected_arg_names += inspect.getfullargspec(cls.__init__).kwonlyargs
         return expected_arg_names
 
-- 
2.43.0


From cc12073df3ec75b70ca198f24fe37f52f0ad6f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:39 +0000
Subject: [PATCH 18/20] fix: synonyms of an enumeration are unique and match
 whatever blanks surround them

---
 gemd/enumeration/base_enumeration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemd/enumeration/base_enumeration.py b/gemd/enumeration/base_enumeration.py
index f751cad..b76a689 100644
--- a/gemd/enumeration/base_enumeration.py
+++ b/gemd/enumeration/base_enumeration.py
@@ -30,12 +30,12 @@ class BaseEnumeration(str, Enum):
         """Overloaded to allow for synonyms."""
         if any(not isinstance(x, str) for x in (value,) + args):
             raise ValueError("All values of enum {} must be strings".format(cls))
-        if cls.from_str(value, exception=False) is not None:
+        if any(cls.from_str(x, exception=False) is not None for x in (value,) + args):
             raise ValueError("Duplicates not allowed in enumerated set of values {}".format(cls))
         obj = str.__new__(cls, value)
         obj._value_ = value
         obj.synonyms = frozenset(args)
-        obj.matches = frozenset([obj.lower()]).union(x.lower() for x in obj.synonyms)
+        obj.matches = frozenset(x.lower().strip() for x in (value,) + args)
         return obj
 
     @classmethod
-- 
2.43.0


From 02e04f2c04de4ae93bf5f13d336e3c42fb387b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:34 +0000
Subject: [PATCH 19/20] fix: remove the linked object itself from its list,
 restoring the specs' own setters

---
 gemd/entity/object/ingredient_run.py  |  4 ++--
 gemd/entity/object/ingredient_spec.py | 18 ++++++++---------
 gemd/entity/object/material_spec.py   | 16 +++++++++------
 gemd/entity/object/measurement_run.py |  3 +--
 gemd/entity/setters.py                | 29 ++-------------------------
 gemd/entity/valid_list.py             | 14 +++++++++++++
 6 files changed, 38 insertions(+), 46 deletions(-)

diff --git a/gemd/entity/object/ingredient_run.py b/gemd/entity/object/ingredient_run.py
index c073f95..d5cdca9 100644
--- a/gemd/entity/object/ingredient_run.py
+++ b/gemd/entity/object/ingredient_run.py
@@ -10,7 +10,7 @@ from gemd.entity.value.continuous_value import ContinuousValue
 from gemd.entity.dict_serializable import DictSerializable
 from gemd.entity.file_link import FileLink
 from gemd.entity.link_by_uid import LinkByUID
-from gemd.entity.setters import validate_list, remove_from_list
+from gemd.entity.setters import validate_list
 
 from typing import Optional, Union, Iterable, List, Mapping, Type, Any
 
@@ -129,7 +129,7 @@ class IngredientRun(BaseObject,
 
         if isinstance(self._process, ProcessRun):
             # This could throw an exception if it's not in the list, but then something else broke
-            remove_from_list(self._process.ingredients, self)
+            self._process.ingredients.remove(self)
 
         self._process = process
         if isinstance(process, ProcessRun):
diff --git a/gemd/entity/object/ingredient_spec.py b/gemd/entity/object/ingredient_spec.py
index 632cd99..7a2f8d4 100644
--- a/gemd/entity/object/ingredient_spec.py
+++ b/gemd/entity/object/ingredient_spec.py
@@ -8,7 +8,7 @@ from gemd.entity.object.has_template import HasTemplate
 from gemd.entity.value.continuous_value import ContinuousValue
 from gemd.entity.file_link import FileLink
 from gemd.entity.link_by_uid import LinkByUID
-from gemd.entity.setters import validate_list, remove_from_list
+from gemd.entity.setters import validate_list
 
 from typing import Optional, Union, Iterable, List, Mapping, Type
 
@@ -117,17 +117,17 @@ class IngredientSpec(BaseObject,
     @process.setter
     def process(self, process: Union[ProcessSpec, LinkByUID]):
         """Set the process."""
-        if process is not None and not isinstance(process, (LinkByUID, ProcessSpec)):
-            raise TypeError("IngredientSpec.process must be a ProcessSpec or "
-                            "LinkByUID: {}".format(process))
-
         if isinstance(self._process, ProcessSpec):
             # This could throw an exception if it's not in the list, but then something else broke
-            remove_from_list(self._process.ingredients, self)
+            self._process.ingredients.remove(self)
 
-        self._process = process
-        if isinstance(process, ProcessSpec):
-            process.ingredients.append(self)
+        if process is None or isinstance(process, (LinkByUID, ProcessSpec)):
+            self._process = process
+            if isinstance(process, ProcessSpec):
+                process.ingredients.append(self)
+        else:
+            raise TypeError("IngredientSpec.process must be a ProcessSpec or "
+                            "LinkByUID: {}".format(process))
 
     @property
     def template(self):
diff --git a/gemd/entity/object/material_spec.py b/gemd/entity/object/material_spec.py
index f136685..3410028 100644
--- a/gemd/entity/object/material_spec.py
+++ b/gemd/entity/object/material_spec.py
@@ -95,14 +95,18 @@ class MaterialSpec(BaseObject, HasTemplate, HasProcess, HasProperties, typ="mate
         """
         from gemd.entity.object.process_spec import ProcessSpec
         from gemd.entity.link_by_uid import LinkByUID
-        if process is not None and not isinstance(process, (LinkByUID, ProcessSpec)):
-            raise TypeError(f"process must be an instance of ProcessSpec or LinkByUID; "
-                            f"instead received type {type(process)}: {process}")
-        if isinstance(self.process, ProcessSpec) and self.process._output_material is self:
+        if self.process is not None and isinstance(self.process, ProcessSpec):
             self.process._output_material = None
-        self._process = process
-        if isinstance(process, ProcessSpec):
+        if process is None:
+            self._process = None
+        elif isinstance(process, LinkByUID):
+            self._process = process
+        elif isinstance(process, ProcessSpec):
             process._output_material = self
+            self._process = process
+        else:
+            raise TypeError(f"process must be an instance of ProcessSpec or LinkByUID; "
+                            f"instead received type {type(process)}: {process}")
 
     @staticmethod
     def _template_type() -> Type:
diff --git a/gemd/entity/object/measurement_run.py b/gemd/entity/object/measurement_run.py
index ab8eb6f..4efed47 100644
--- a/gemd/entity/object/measurement_run.py
+++ b/gemd/entity/object/measurement_run.py
@@ -13,7 +13,6 @@ from gemd.entity.attribute.property import Property
 from gemd.entity.source.performed_source import PerformedSource
 from gemd.entity.file_link import FileLink
 from gemd.entity.link_by_uid import LinkByUID
-from gemd.entity.setters import remove_from_list
 
 from typing import Optional, Union, Iterable, Mapping, Type
 
@@ -97,7 +96,7 @@ class MeasurementRun(BaseObject, HasMaterial, HasSpec, HasConditions, HasPropert
 
         if isinstance(self._material, MaterialRun):
             # This could throw an exception if it's not in the list, but then something else broke
-            remove_from_list(self._material.measurements, self)
+            self._material.measurements.remove(self)
 
         self._material = value
         if isinstance(value, MaterialRun):
diff --git a/gemd/entity/setters.py b/gemd/entity/setters.py
index 7e79132..6a86e64 100644
--- a/gemd/entity/setters.py
+++ b/gemd/entity/setters.py
@@ -1,9 +1,9 @@
 """Methods for setting and validating."""
 from gemd.entity.valid_list import ValidList
 
-from typing import Any, Union, Iterable, Optional, Callable, Type, TypeVar
+from typing import Union, Iterable, Optional, Callable, Type, TypeVar
 
-__all__ = ["validate_list", "validate_str", "remove_from_list"]
+__all__ = ["validate_list", "validate_str"]
 
 T = TypeVar('T')
 
@@ -62,28 +62,3 @@ def validate_str(obj) -> str:
     if not isinstance(obj, str):
         raise TypeError("Expected a string but got {} instead".format(type(obj)))
     return obj
-
-
-def remove_from_list(list_: list, obj: Any):
-    """
-    Remove an object itself from a list, rather than the first object that compares equal to it.
-
-    Parameters
-    ----------
-    list_: list
-        The list to remove the object from.
-    obj: Any
-        The object to remove.  If the object itself is not in the list, the first element that
-        is equal to it (such as a link to it) is removed instead.
-
-    Raises
-    -------
-    ValueError
-        If neither the object nor anything equal to it is in the list.
-
-    """
-    for i, x in enumerate(list_):
-        if x is obj:
-            del list_[i]
-            return
-    list_.remove(obj)
diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index de78741..a3ad75c 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -204,3 +204,17 @@ class ValidList(list):
             if result is not None:
                 value = result
         super().insert(i, value)
+
+    def remove(self, value):
+        """
+        Remove an object itself rather than the first element that happens to equal it.
+
+        If the object itself is not in the list, remove the first element that is equal to it
+        (such as a link to it), raising a ValueError if there is none.
+
+        """
+        for i, x in enumerate(self):
+            if x is value:
+                del self[i]
+                return
+        super().remove(value)
-- 
2.43.0


From 7162ce18403a0fc32dac360d47c635c051c97ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:09 +0000
Subject: [PATCH 20/20] fix: object equality no longer keeps results that
 rested on a refuted presumption

While a pair is being compared it is presumed equal; results found on that
presumption stayed in the cache after the pair turned out to be different, so
unequal graphs could compare equal.  List elements are now paired one to one.
---
 gemd/entity/base_entity.py | 76 +++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 34 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index 0fed2fa..a11cfb5 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -1,4 +1,5 @@
 """Base class for all entities."""
+from itertools import takewhile
 from typing import TypeVar, Optional, Union, Iterable, List, Set, FrozenSet, MutableMapping, Dict
 
 from gemd.entity.dict_serializable import DictSerializable
@@ -128,7 +129,9 @@ class BaseEntity(DictSerializable):
 
         The cache uses ternary logic to communicate state.  True or False indicate a completed
         evaluation.  If the cache contains None, this indicates that we have not yet completed
-        an evaluation in an earlier frame of the stack.
+        an evaluation in an earlier frame of the stack.  An unfinished pair is presumed equal,
+        so a True only stands as long as every unfinished pair it was found under does: when a
+        pair turns out to be different, the Trues that were found while evaluating it are dropped.
         """
         if cache is None:
             cache = {}
@@ -137,18 +140,24 @@ class BaseEntity(DictSerializable):
             return cache[cache_key]
         cache[cache_key] = None  # Mark as in progress
 
+        def _failed() -> bool:
+            """Mark as failed, and withdraw what was only established on this presumption."""
+            for key in list(takewhile(lambda k: k != cache_key, reversed(cache))):
+                if cache[key] is True:
+                    del cache[key]
+            cache[cache_key] = False
+            return False
+
         this_dict = this._dict_for_compare()
         that_dict = that._dict_for_compare()
         if this_dict.keys() != that_dict.keys():
-            cache[cache_key] = False  # Mark as failed
-            return False
+            return _failed()
 
         # Check UIDs for an easy potential win
         this_uids = this_dict.pop("uids")
         that_uids = that_dict.pop("uids")
         if this_uids != that_uids:
-            cache[cache_key] = False  # Mark as failed
-            return False
+            return _failed()
 
         # Crawl rest of values to verify they align
         for key in this_dict:
@@ -156,8 +165,7 @@ class BaseEntity(DictSerializable):
             that_value = that_dict[key]
             if isinstance(this_value, BaseEntity) and isinstance(that_value, BaseEntity):
                 if BaseEntity._cached_equals(this_value, that_value, cache=cache) is False:
-                    cache[cache_key] = False  # Mark as failed
-                    return False
+                    return _failed()
             elif isinstance(this_value, Iterable) and isinstance(that_value, Iterable) \
                     and not isinstance(this_value, str) and not isinstance(that_value, str):
                 # Necessary to maintain context for recursive parts of the structure
@@ -171,37 +179,37 @@ class BaseEntity(DictSerializable):
                     if len(that_list) == 0:
                         if len(that_uids) > 0:  # But if it was flattened, uids will save us
                             continue
-                    cache[cache_key] = False  # Mark as failed
-                    return False
+                    return _failed()
+
+                # Finally crawl and compare, pairing the elements off one to one
+                partner = {}  # index in that_list -> index in this_list
 
-                # Finally crawl and compare
-                for x in this_list:
-                    found = False
-                    i_found = None
-                    if isinstance(x, BaseEntity):
-                        for i_found, y in enumerate(that_list):
-                            # Unless something really broke, y is a BaseEntity
-                            result = BaseEntity._cached_equals(x, y, cache=cache)
-                            if result is True:
-                                found = True
-                                break
-                            elif result is None:
-                                # Don't know yet; pass as False will appear elsewhere
-                                found = None
+                def _agree(i, j):
+                    x, y = this_list[i], that_list[j]
+                    if isinstance(x, BaseEntity) and isinstance(y, BaseEntity):
+                        # If we don't know yet (None), a difference will appear elsewhere
+                        return BaseEntity._cached_equals(x, y, cache=cache) is not False
                     else:
-                        found = x in that_list
-                        if found:
-                            i_found = that_list.index(x)
-                    if found is True:
-                        if i_found is not None:
-                            del that_list[i_found]
-                    elif found is False:
-                        cache[cache_key] = False  # Mark as failed
-                        return False
+                        return x is y or x == y
+
+                def _pair_off(i, tried):
+                    for j in range(len(that_list)):
+                        if j not in partner and _agree(i, j):
+                            partner[j] = i
+                            return True
+                    for j in set(partner) - tried:  # See if an earlier choice can be changed
+                        if j not in tried and _agree(i, j):
+                            tried.add(j)
+                            if _pair_off(partner[j], tried):
+                                partner[j] = i
+                                return True
+                    return False
+
+                if not all(_pair_off(i, set()) for i in range(len(this_list))):
+                    return _failed()
 
             elif this_value != that_value:  # __eq__ should be cheap
-                cache[cache_key] = False  # Mark as failed
-                return False
+                return _failed()
 
         cache[cache_key] = True  # All tests passed
         return True
-- 
2.43.0

