From 20c74f5a108534756e908cbb4375b133e27a8110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:30 +0000
Subject: [PATCH 01/42] fix: skip None mappings when skip_empty or exclude_none
 is set

An optional mapping element holding None raised TypeError with skip_empty and
was written as an empty element with exclude_none.
---
 pydantic_xml/serializers/factories/mapping.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index e8856c8..a43e021 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -106,6 +106,9 @@ class ElementSerializer(AttributesSerializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
+        if value is None and (skip_empty or exclude_none):
+            return element
+
         if skip_empty and len(value) == 0:
             return element
 
-- 
2.43.0


From 87b96469fc63c069c2c748aafa053a041d34244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:30 +0000
Subject: [PATCH 02/42] fix: keep attributes of other fields when a mapping is
 serialized

A mapping stored in the model attributes replaced the attributes already
written by the preceding fields.
---
 pydantic_xml/serializers/factories/mapping.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index a43e021..503ba02 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -39,10 +39,8 @@ class AttributesSerializer(Serializer):
             return element
 
         ns = self._nsmap.get(self._ns) if self._namespaced_attrs and self._ns and self._nsmap else None
-        element.set_attributes({
-            QName(tag=attr, ns=ns).uri: str(enc)
-            for attr, enc in encoded.items()
-        })
+        for attr, enc in encoded.items():
+            element.set_attribute(QName(tag=attr, ns=ns).uri, str(enc))
 
         return element
 
-- 
2.43.0


From b6370383c447adfa84a3f6c467ce1dc0cc8a2764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:45 +0000
Subject: [PATCH 03/42] fix: encode mapping values like other primitives

Booleans and Nones were written as True/False/None instead of true/false and
an empty string.
---
 pydantic_xml/serializers/factories/mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index 503ba02..44e670c 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -4,7 +4,7 @@ from pydantic_core import core_schema as pcs
 
 from pydantic_xml import errors
 from pydantic_xml.element import XmlElementReader, XmlElementWriter
-from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, SearchMode, Serializer
+from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, SearchMode, Serializer, encode_primitive
 from pydantic_xml.typedefs import EntityLocation, Location, NsMap
 from pydantic_xml.utils import QName, merge_nsmaps, select_ns
 
@@ -40,7 +40,7 @@ class AttributesSerializer(Serializer):
 
         ns = self._nsmap.get(self._ns) if self._namespaced_attrs and self._ns and self._nsmap else None
         for attr, enc in encoded.items():
-            element.set_attribute(QName(tag=attr, ns=ns).uri, str(enc))
+            element.set_attribute(QName(tag=attr, ns=ns).uri, encode_primitive(enc))
 
         return element
 
-- 
2.43.0


From da0ad8ef7934b4c295904d92919c5348d54521b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:50 +0000
Subject: [PATCH 04/42] fix: resolve namespace prefixes from the nearest
 declaration

A prefix declared by a wrapper was overridden by the same prefix of the
enclosing model when the wrapped entity was resolved.
---
 pydantic_xml/serializers/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/serializer.py b/pydantic_xml/serializers/serializer.py
index 40a4e53..59b0ca0 100644
--- a/pydantic_xml/serializers/serializer.py
+++ b/pydantic_xml/serializers/serializer.py
@@ -154,8 +154,8 @@ class Serializer(abc.ABC):
         def parent_nsmap(self) -> Optional[NsMap]:
             if parent_ctx := self.parent_ctx:
                 return {
-                    **(parent_ctx.entity_nsmap or {}),
                     **(parent_ctx.parent_nsmap or {}),
+                    **(parent_ctx.entity_nsmap or {}),
                 }
 
             return None
-- 
2.43.0


From 9be7d84b388b1b7d2ee89b8789f6ffff886023e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:24 +0000
Subject: [PATCH 05/42] fix: apply the alias passed to wrapped()

The alias given to wrapped() was ignored, and the unset alias of the wrapped
entity cleared it.
---
 pydantic_xml/fields.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydantic_xml/fields.py b/pydantic_xml/fields.py
index a262a7d..a69b85d 100644
--- a/pydantic_xml/fields.py
+++ b/pydantic_xml/fields.py
@@ -108,6 +108,9 @@ _Unset: Any = pdc.PydanticUndefined
 
 
 def prepare_field_kwargs(kwargs: Dict[str, Any]) -> Dict[str, Any]:
+    if kwargs.get('alias') is None:
+        return kwargs
+
     if kwargs.get('serialization_alias') in (None, pdc.PydanticUndefined):
         kwargs['serialization_alias'] = kwargs.get('alias')
 
@@ -199,6 +202,8 @@ def wrapped(
     :param kwargs: pydantic field arguments. See :py:class:`pydantic.Field`
     """
 
+    kwargs = prepare_field_kwargs(kwargs)
+
     if entity is None:
         wrapped_entity_info = None
         field_info = pd.fields.FieldInfo(default=default, default_factory=default_factory, **kwargs)
-- 
2.43.0


From e4a0463fa264f1c0c558fab03c79abc0059a70c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:28 +0000
Subject: [PATCH 06/42] fix: serialize subclass instances held by a union field

A value of a subclass of one of the union models was silently dropped from the
document.
---
 pydantic_xml/serializers/factories/union.py | 28 +++++++++++++--------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index 67ad02f..9d32d13 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -1,3 +1,4 @@
+import itertools as it
 from typing import Any, Dict, List, Optional, Set, Tuple, Union
 
 import pydantic as pd
@@ -106,16 +107,23 @@ class ModelSerializer(Serializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
-        for serializer in self._inner_serializers:
-            if serializer.model is type(value):
-                return serializer.serialize(
-                    element, value, encoded,
-                    skip_empty=skip_empty,
-                    exclude_none=exclude_none,
-                    exclude_unset=exclude_unset,
-                )
-
-        return None
+        # prefer the exact type, otherwise fall back to the alternative the value is an instance of
+        serializer = next(
+            it.chain(
+                (s for s in self._inner_serializers if s.model is type(value)),
+                (s for s in self._inner_serializers if isinstance(value, s.model)),
+            ),
+            None,
+        )
+        if serializer is None:
+            return None
+
+        return serializer.serialize(
+            element, value, encoded,
+            skip_empty=skip_empty,
+            exclude_none=exclude_none,
+            exclude_unset=exclude_unset,
+        )
 
     def deserialize(
             self,
-- 
2.43.0


From 80d98ca6a78b035d7286ce279fc7fa53a0bc624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:48 +0000
Subject: [PATCH 07/42] fix: skip the element a union failed to parse, not the
 next one

In the ordered and unordered modes the element that failed is not necessarily
the next one, so items of a collection of unions reported its errors repeatedly
under wrong indices.
---
 pydantic_xml/serializers/factories/union.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index 9d32d13..c07865d 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -141,6 +141,7 @@ class ModelSerializer(Serializer):
             return None
 
         union_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
+        failed_snapshot: Optional[Any] = None
         result: Any = None
         for serializer in self._inner_serializers:
             snapshot = element.create_snapshot()
@@ -156,9 +157,11 @@ class ModelSerializer(Serializer):
                     return result
             except pd.ValidationError as e:
                 union_errors[e.title] = e
+                failed_snapshot = failed_snapshot or snapshot
 
-        if union_errors:
-            element.step_forward()
+        if failed_snapshot is not None:
+            # skips the element that has not been parsed
+            element.apply_snapshot(failed_snapshot)
             raise utils.into_validation_error(
                 title=self._model_name, errors_map=union_errors, hide_input=self._hide_input_in_errors,
             )
-- 
2.43.0


From 7345b573584cd9de47e8b0776ca18011e589f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:26 +0000
Subject: [PATCH 08/42] fix: ignore processing instructions and keep the text
 around comments

With lxml a processing instruction was treated as a sub-element, and text
following a comment or a processing instruction was lost (as it was for trees
built with such nodes with the standard library).
---
 pydantic_xml/element/element.py     |  3 +++
 pydantic_xml/element/native/lxml.py | 24 ++++++++++++++++--------
 pydantic_xml/element/native/std.py  | 26 +++++++++++++++++---------
 3 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/pydantic_xml/element/element.py b/pydantic_xml/element/element.py
index 6bcdb63..16fdeec 100644
--- a/pydantic_xml/element/element.py
+++ b/pydantic_xml/element/element.py
@@ -389,6 +389,9 @@ class XmlElement(XmlElementReader, XmlElementWriter, Generic[NativeElement]):
 
         return result
 
+    def append_tail(self, tail: str) -> None:
+        self._state.tail = (self._state.tail or '') + tail
+
     def pop_tail(self) -> Optional[str]:
         result, self._state.tail = self._state.tail, None
 
diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index 433f553..d0cea7f 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -18,19 +18,27 @@ ElementT = etree._Element
 class XmlElement(BaseXmlElement[ElementT]):
     @classmethod
     def from_native(cls, element: ElementT) -> 'XmlElement':
+        text = element.text
+        elements: typing.List['XmlElement'] = []
+        for sub_element in element:
+            if not is_xml_special(sub_element):
+                elements.append(XmlElement.from_native(sub_element))
+            elif sub_element.tail:
+                # text following a comment or a processing instruction continues the preceding one
+                if elements:
+                    elements[-1].append_tail(sub_element.tail)
+                else:
+                    text = (text or '') + sub_element.tail
+
         return cls(
             tag=element.tag,
-            text=element.text,
+            text=text,
             tail=element.tail,
             attributes={
                 force_str(name): force_str(value)  # transformation is safe since lxml bytes values are ASCII compatible
                 for name, value in element.attrib.items()
             },
-            elements=[
-                XmlElement.from_native(sub_element)
-                for sub_element in element
-                if not is_xml_comment(sub_element)
-            ],
+            elements=elements,
             sourceline=typing.cast(int, element.sourceline) if element.sourceline is not None else -1,
         )
 
@@ -61,5 +69,5 @@ def force_str(val: Union[str, bytes]) -> str:
         return val
 
 
-def is_xml_comment(element: ElementT) -> bool:
-    return isinstance(element, etree._Comment)
+def is_xml_special(element: ElementT) -> bool:
+    return isinstance(element, (etree._Comment, etree._ProcessingInstruction))
diff --git a/pydantic_xml/element/native/std.py b/pydantic_xml/element/native/std.py
index f55f22c..1e5ce0c 100644
--- a/pydantic_xml/element/native/std.py
+++ b/pydantic_xml/element/native/std.py
@@ -1,5 +1,5 @@
 import xml.etree.ElementTree as etree
-from typing import Optional
+from typing import List, Optional
 
 from pydantic_xml.element import XmlElement as BaseXmlElement
 from pydantic_xml.typedefs import NsMap
@@ -16,16 +16,24 @@ ElementT = etree.Element
 class XmlElement(BaseXmlElement[ElementT]):
     @classmethod
     def from_native(cls, element: ElementT) -> 'XmlElement':
+        text = element.text
+        elements: List['XmlElement'] = []
+        for sub_element in element:
+            if not is_xml_special(sub_element):
+                elements.append(XmlElement.from_native(sub_element))
+            elif sub_element.tail:
+                # text following a comment or a processing instruction continues the preceding one
+                if elements:
+                    elements[-1].append_tail(sub_element.tail)
+                else:
+                    text = (text or '') + sub_element.tail
+
         return cls(
             tag=element.tag,
-            text=element.text,
+            text=text,
             tail=element.tail,
             attributes=dict(element.attrib),
-            elements=[
-                XmlElement.from_native(sub_element)
-                for sub_element in element
-                if not is_xml_comment(sub_element)
-            ],
+            elements=elements,
         )
 
     def to_native(self) -> ElementT:
@@ -43,5 +51,5 @@ class XmlElement(BaseXmlElement[ElementT]):
         return -1
 
 
-def is_xml_comment(element: ElementT) -> bool:
-    return element.tag is etree.Comment  # type: ignore[comparison-overlap]
+def is_xml_special(element: ElementT) -> bool:
+    return element.tag in (etree.Comment, etree.ProcessingInstruction)  # type: ignore[comparison-overlap]
-- 
2.43.0


From 0ec58af8e333380bc2458476d678a5b93b73cf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:31 +0000
Subject: [PATCH 09/42] fix: do not report text following a sub-model element
 as its extra input

With extra forbidden, the text after the closing tag of the model's own element
belongs to the enclosing element.
---
 pydantic_xml/element/element.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/element/element.py b/pydantic_xml/element/element.py
index 16fdeec..6e60851 100644
--- a/pydantic_xml/element/element.py
+++ b/pydantic_xml/element/element.py
@@ -478,7 +478,8 @@ class XmlElement(XmlElementReader, XmlElementWriter, Generic[NativeElement]):
         if self._state.text and (text := self._state.text.strip()):
             result.append((path, None, text))
 
-        if self._state.tail and (tail := self._state.tail.strip()):
+        # the tail of the top element belongs to its parent
+        if path and self._state.tail and (tail := self._state.tail.strip()):
             result.append((path, None, tail))
 
         if attrs := self._state.attrib:
-- 
2.43.0


From 15f85ed64f62c7319bc00b61789480130be7a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:53 +0000
Subject: [PATCH 10/42] fix: report validation errors at the line of the
 element they come from

The map of source lines was shared by all nested models, although error
locations are relative to the model: an error could be reported at the line of a
same-named field of a sub-model, and errors of aliased fields, root models and
model validators at line -1.
---
 pydantic_xml/serializers/factories/model.py | 10 ++++++++--
 pydantic_xml/utils.py                       |  5 +++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index ed5bca9..a9c91fb 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -207,11 +207,14 @@ class ModelSerializer(BaseModelSerializer):
         if element is None:
             return None
 
+        # validation error locations are relative to the model
+        sourcemap = {(): element.get_sourceline()}
+
         result: Dict[str, Any] = {}
         field_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
         for field_name, field_serializer in self._field_serializers.items():
             try:
-                loc = (field_name,)
+                loc = (self._fields_validation_aliases.get(field_name, field_name),)
                 sourcemap[loc] = element.get_sourceline()
                 if custom_field_validator := self._model.__xml_field_validators__.get(field_name):
                     field_value = custom_field_validator(self._model, element, field_name)
@@ -334,9 +337,12 @@ class RootModelSerializer(BaseModelSerializer):
         if element is None:
             return None
 
+        # validation error locations are relative to the model
+        sourcemap = {(): element.get_sourceline()}
+
         try:
             result = self._root_serializer.deserialize(
-                element, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
+                element, context=context, sourcemap=sourcemap, loc=(), empty_as_string=empty_as_string,
             )
             if result is None:
                 result = pdc.PydanticUndefined
diff --git a/pydantic_xml/utils.py b/pydantic_xml/utils.py
index bb6e2aa..55cf800 100644
--- a/pydantic_xml/utils.py
+++ b/pydantic_xml/utils.py
@@ -137,9 +137,10 @@ def set_validation_error_sourceline(
 ) -> pd.ValidationError:
     line_errors: List[pdc.InitErrorDetails] = []
     for error in err.errors():
-        loc, sourceline = error['loc'], -1
-        while loc and (sourceline := sourcemap.get(loc, sourceline)) == -1:
+        loc = error['loc']
+        while loc and loc not in sourcemap:
             loc = tuple(loc[:-1])
+        sourceline = sourcemap.get(loc, -1)
 
         line_errors.append(
             pdc.InitErrorDetails(
-- 
2.43.0


From 76755aa16673eb8ba82487b34e8ea8d329e2ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:58 +0000
Subject: [PATCH 11/42] fix: skip None sub-models when skip_empty is set

A nillable sub-model holding None was written with skip_empty although Nones are
to be skipped, as they are for nillable primitives.
---
 pydantic_xml/serializers/factories/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index a9c91fb..c0c3654 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -422,7 +422,7 @@ class ModelProxySerializer(BaseModelSerializer):
     ) -> Optional[XmlElementWriter]:
         assert self._model.__xml_serializer__ is not None, f"model {self._model.__name__} is partially initialized"
 
-        if exclude_none and value is None:
+        if value is None and (skip_empty or exclude_none):
             return None
 
         if self._nillable and value is None:
-- 
2.43.0


From a301567c71572fa885d5d961a22b00d77b058dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:20 +0000
Subject: [PATCH 12/42] fix: do not leave empty wrapper elements when
 skip_empty is set

The elements of a wrapped path were left in the document when everything inside
of them had been skipped.
---
 pydantic_xml/element/element.py               | 12 ++++++++++++
 pydantic_xml/serializers/factories/wrapper.py | 10 +++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/element/element.py b/pydantic_xml/element/element.py
index 6e60851..56df87b 100644
--- a/pydantic_xml/element/element.py
+++ b/pydantic_xml/element/element.py
@@ -220,6 +220,14 @@ class XmlElementWriter(abc.ABC):
         :param element: sub-element to be added
         """
 
+    @abc.abstractmethod
+    def remove_element(self, element: 'XmlElementWriter') -> None:
+        """
+        Removes a sub-element from the xml element.
+
+        :param element: sub-element to be removed
+        """
+
     @abc.abstractmethod
     def make_element(self, tag: str, nsmap: Optional[NsMap]) -> 'XmlElement[Any]':
         """
@@ -381,6 +389,10 @@ class XmlElement(XmlElementReader, XmlElementWriter, Generic[NativeElement]):
         self._state.elements.append(element)
         self._state.next_element_idx += 1
 
+    def remove_element(self, element: 'XmlElementWriter') -> None:
+        self._state.elements = [el for el in self._state.elements if el is not element]
+        self._state.next_element_idx -= 1
+
     def get_attrib(self, name: str) -> Optional[str]:
         return self._state.attrib.get(name, None) if self._state.attrib else None
 
diff --git a/pydantic_xml/serializers/factories/wrapper.py b/pydantic_xml/serializers/factories/wrapper.py
index a21436e..f6800e5 100644
--- a/pydantic_xml/serializers/factories/wrapper.py
+++ b/pydantic_xml/serializers/factories/wrapper.py
@@ -1,4 +1,4 @@
-from typing import Any, Dict, Optional, Sized
+from typing import Any, Dict, List, Optional, Sized
 
 from pydantic_core import core_schema as pcs
 
@@ -55,13 +55,21 @@ class ElementPathSerializer(Serializer):
         if skip_empty and isinstance(value, Sized) and len(value) == 0:
             return element
 
+        parents: List[XmlElementWriter] = []
         for part in self._path:
+            parents.append(element)
             element = element.find_element_or_create(part, self._search_mode, nsmap=self._nsmap)
 
         self._inner_serializer.serialize(
             element, value, encoded, skip_empty=skip_empty, exclude_none=exclude_none, exclude_unset=exclude_unset,
         )
 
+        if skip_empty:
+            while parents and element.is_empty():
+                parent = parents.pop()
+                parent.remove_element(element)
+                element = parent
+
         return element
 
     def deserialize(
-- 
2.43.0


From cf65e9d49d16cb89818dd1f2326d72ba49d1ad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:25 +0000
Subject: [PATCH 13/42] fix: make the mypy plugin recognize attr, element and
 wrapped

The functions live in pydantic_xml.fields, so the plugin took every field
declared with them as having a default.
---
 pydantic_xml/mypy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index a789d77..b885fc5 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -5,9 +5,9 @@ from mypy.plugin import ClassDefContext, Plugin
 from pydantic.mypy import PydanticModelTransformer, PydanticPlugin
 
 MODEL_METACLASS_FULLNAME = 'pydantic_xml.model.XmlModelMeta'
-ATTR_FULLNAME = 'pydantic_xml.model.attr'
-ELEMENT_FULLNAME = 'pydantic_xml.model.element'
-WRAPPED_FULLNAME = 'pydantic_xml.model.wrapped'
+ATTR_FULLNAME = 'pydantic_xml.fields.attr'
+ELEMENT_FULLNAME = 'pydantic_xml.fields.element'
+WRAPPED_FULLNAME = 'pydantic_xml.fields.wrapped'
 ENTITIES_FULLNAME = (ATTR_FULLNAME, ELEMENT_FULLNAME, WRAPPED_FULLNAME)
 
 
-- 
2.43.0


From 19ca6a80763272688bffe108eb89b83154861ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:52 +0000
Subject: [PATCH 14/42] fix: reject unnamed collections of primitive unions

Such a field overwrote the element text with each item, and deserializing it with
empty_as_string never ended.
---
 .../serializers/factories/heterogeneous.py        |  5 +++++
 pydantic_xml/serializers/factories/homogeneous.py |  5 +++++
 pydantic_xml/serializers/factories/named_tuple.py |  5 +++++
 pydantic_xml/serializers/factories/union.py       | 15 +++++++++++++++
 4 files changed, 30 insertions(+)

diff --git a/pydantic_xml/serializers/factories/heterogeneous.py b/pydantic_xml/serializers/factories/heterogeneous.py
index 53536ae..a6134fc 100644
--- a/pydantic_xml/serializers/factories/heterogeneous.py
+++ b/pydantic_xml/serializers/factories/heterogeneous.py
@@ -8,6 +8,8 @@ from pydantic_xml.element import XmlElementReader, XmlElementWriter
 from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, Serializer
 from pydantic_xml.typedefs import EntityLocation, Location
 
+from .union import is_primitive_union
+
 
 class ElementSerializer(Serializer):
     @classmethod
@@ -121,6 +123,9 @@ def from_core_schema(schema: pcs.TupleSchema, ctx: Serializer.Context) -> Serial
         if items_type_family not in (SchemaTypeFamily.MODEL, SchemaTypeFamily.UNION) and ctx.entity_location is None:
             raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "entity name is not provided")
 
+        if ctx.entity_location is None and is_primitive_union(item_schema, ctx):
+            raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "entity name is not provided")
+
     if ctx.entity_location is EntityLocation.ELEMENT:
         return ElementSerializer.from_core_schema(schema, ctx)
     elif ctx.entity_location is None:
diff --git a/pydantic_xml/serializers/factories/homogeneous.py b/pydantic_xml/serializers/factories/homogeneous.py
index 3d134ed..ea1f3c9 100644
--- a/pydantic_xml/serializers/factories/homogeneous.py
+++ b/pydantic_xml/serializers/factories/homogeneous.py
@@ -9,6 +9,8 @@ from pydantic_xml.element import XmlElementReader, XmlElementWriter
 from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, Serializer
 from pydantic_xml.typedefs import EntityLocation, Location
 
+from .union import is_primitive_union
+
 HomogeneousCollectionTypeSchema = Union[
     pcs.TupleSchema,
     pcs.ListSchema,
@@ -137,6 +139,9 @@ def from_core_schema(schema: HomogeneousCollectionTypeSchema, ctx: Serializer.Co
     ) and ctx.entity_location is None:
         raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "entity name is not provided")
 
+    if ctx.entity_location is None and is_primitive_union(items_schema, ctx):
+        raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "entity name is not provided")
+
     if ctx.entity_location is EntityLocation.ELEMENT:
         return ElementSerializer.from_core_schema(schema, ctx)
     elif ctx.entity_location is None:
diff --git a/pydantic_xml/serializers/factories/named_tuple.py b/pydantic_xml/serializers/factories/named_tuple.py
index 426a094..5a28cdb 100644
--- a/pydantic_xml/serializers/factories/named_tuple.py
+++ b/pydantic_xml/serializers/factories/named_tuple.py
@@ -9,6 +9,8 @@ from pydantic_xml.serializers.factories import heterogeneous
 from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, Serializer
 from pydantic_xml.typedefs import EntityLocation, Location
 
+from .union import is_primitive_union
+
 
 class ElementSerializer(Serializer):
     @classmethod
@@ -85,6 +87,9 @@ def from_core_schema(schema: pcs.CallSchema, ctx: Serializer.Context) -> Seriali
         if param_type_family not in (SchemaTypeFamily.MODEL, SchemaTypeFamily.UNION) and ctx.entity_location is None:
             raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "entity name is not provided")
 
+        if ctx.entity_location is None and is_primitive_union(param_schema, ctx):
+            raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "entity name is not provided")
+
     if ctx.entity_location is EntityLocation.ELEMENT:
         return ElementSerializer.from_core_schema(arguments_schema, ctx)
     elif ctx.entity_location is None:
diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index c07865d..273d348 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -169,6 +169,21 @@ class ModelSerializer(Serializer):
         return result
 
 
+def is_primitive_union(schema: pcs.CoreSchema, ctx: Serializer.Context) -> bool:
+    if schema['type'] != 'union':
+        return False
+
+    for choice_schema in schema['choices']:
+        if isinstance(choice_schema, tuple):
+            choice_schema, label = choice_schema
+
+        choice_schema, choice_ctx = Serializer.preprocess_schema(choice_schema, ctx)
+        if TYPE_FAMILY.get(choice_schema['type']) is SchemaTypeFamily.PRIMITIVE:
+            return True
+
+    return False
+
+
 def from_core_schema(schema: pcs.UnionSchema, ctx: Serializer.Context) -> Serializer:
     choice_families: Set[SchemaTypeFamily] = set()
     for choice_schema in schema['choices']:
-- 
2.43.0


From ea1455612f03027893c07085880fc82afb6bc8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:19 +0000
Subject: [PATCH 15/42] fix: pass field data by name when validation by alias
 is disabled

With validate_by_alias=False the data of aliased fields was passed to the
validation by alias, and the fields were reported as missing.
---
 pydantic_xml/serializers/factories/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index c0c3654..f172f08 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -70,6 +70,7 @@ class ModelSerializer(BaseModelSerializer):
         fields_schema = typing.cast(pcs.ModelFieldsSchema, fields_schema)
 
         hide_input_in_errors = model_cls.model_config.get('hide_input_in_errors', ctx.hide_input_in_errors)
+        validate_by_alias = model_cls.model_config.get('validate_by_alias') is not False
 
         entity_info: Optional[XmlEntityInfoP]
         fields_serialization_exclude: Set[str] = set()
@@ -84,7 +85,7 @@ class ModelSerializer(BaseModelSerializer):
                 fields_serialization_exclude.add(field_name)
 
             field_alias = model_field.get('serialization_alias')
-            if validation_alias := model_field.get('validation_alias'):
+            if validate_by_alias and (validation_alias := model_field.get('validation_alias')):
                 if isinstance(validation_alias, str):
                     fields_validation_aliases[field_name] = validation_alias
 
-- 
2.43.0


From 87551a2ff35616cba0519346732bc290f922598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:33 +0000
Subject: [PATCH 16/42] fix: pass data of fields with alias choices to the
 validation

A field with a validation_alias of AliasChoices was always reported as missing.
---
 pydantic_xml/serializers/factories/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index f172f08..c4af96e 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -88,6 +88,11 @@ class ModelSerializer(BaseModelSerializer):
             if validate_by_alias and (validation_alias := model_field.get('validation_alias')):
                 if isinstance(validation_alias, str):
                     fields_validation_aliases[field_name] = validation_alias
+                else:  # any of alias choices is suitable unless it is an alias path
+                    for alias_path in validation_alias:
+                        if isinstance(alias_path, list) and len(alias_path) == 1:
+                            fields_validation_aliases[field_name] = str(alias_path[0])
+                            break
 
             field_ctx = ctx.child(
                 field_name=field_name,
-- 
2.43.0


From 23a7d01973007ab580cb0054c825c746a5aee514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:04 +0000
Subject: [PATCH 17/42] fix: serialize optional discriminated unions holding
 None

---
 pydantic_xml/serializers/factories/tagged_union.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/serializers/factories/tagged_union.py b/pydantic_xml/serializers/factories/tagged_union.py
index 5f17e43..22652ab 100644
--- a/pydantic_xml/serializers/factories/tagged_union.py
+++ b/pydantic_xml/serializers/factories/tagged_union.py
@@ -76,6 +76,9 @@ class ModelSerializer(Serializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
+        if value is None:
+            return None
+
         if (tag := encoded.get(self._discriminator)) and (serializer := self._inner_serializers[tag]):
             return serializer.serialize(
                 element, value, encoded, skip_empty=skip_empty, exclude_none=exclude_none, exclude_unset=exclude_unset,
-- 
2.43.0


From 86faae0b898dc70cea9bf7acae032480b3c03f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:30 +0000
Subject: [PATCH 18/42] fix: undeclare the default namespace for elements
 without one (lxml)

---
 pydantic_xml/element/native/lxml.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index d0cea7f..2ea098e 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -42,16 +42,22 @@ class XmlElement(BaseXmlElement[ElementT]):
             sourceline=typing.cast(int, element.sourceline) if element.sourceline is not None else -1,
         )
 
-    def to_native(self) -> ElementT:
-        element = etree.Element(
-            self._tag,
-            attrib=self._state.attrib,
-            # https://github.com/lxml/lxml-stubs/issues/76
-            nsmap={ns or None: uri for ns, uri in self._nsmap.items()} if self._nsmap else None,  # type: ignore[misc]
-        )
+    def to_native(self, parent: Optional[ElementT] = None) -> ElementT:
+        nsmap = {ns or None: uri for ns, uri in self._nsmap.items()} if self._nsmap else {}
+        if not self._tag.startswith('{') and (nsmap.get(None) or (parent is not None and parent.nsmap.get(None))):
+            # lxml doesn't undeclare the default namespace for elements that don't belong to any
+            nsmap[None] = ''
+
+        # https://github.com/lxml/lxml-stubs/issues/76
+        if parent is None:
+            element = etree.Element(self._tag, self._state.attrib, nsmap or None)  # type: ignore[arg-type]
+        else:
+            element = etree.SubElement(parent, self._tag, self._state.attrib, nsmap or None)  # type: ignore[arg-type]
+
         element.text = self._state.text
         element.tail = self._state.tail
-        element.extend([element.to_native() for element in self._state.elements])
+        for sub_element in self._state.elements:
+            typing.cast(XmlElement, sub_element).to_native(element)
 
         return element
 
-- 
2.43.0


From b8429de84248d43139e0f50c7c6cd83927bd5cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:17 +0000
Subject: [PATCH 19/42] fix: do not reorder elements when an unordered search
 only looks them up

A discriminated union that does not bind an element must leave the order of the
remaining elements as it is.
---
 pydantic_xml/element/element.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pydantic_xml/element/element.py b/pydantic_xml/element/element.py
index 56df87b..d376811 100644
--- a/pydantic_xml/element/element.py
+++ b/pydantic_xml/element/element.py
@@ -621,10 +621,9 @@ def unordered_search(
     for idx in range(state.next_element_idx, len(state.elements)):
         element = state.elements[idx]
         if element.tag == tag:
-            state.elements[state.next_element_idx], state.elements[idx] = \
-                state.elements[idx], state.elements[state.next_element_idx]
-
             if step_forward:
+                state.elements[state.next_element_idx], state.elements[idx] = \
+                    state.elements[idx], state.elements[state.next_element_idx]
                 state.next_element_idx += 1
 
             result = element
-- 
2.43.0


From 2ae6e79206ab60a5b11e3373d7b8a9e3b5f33e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:45 +0000
Subject: [PATCH 20/42] fix: reject plain field validators with a model field
 error

The class definition failed with KeyError('serialization').
---
 pydantic_xml/serializers/serializer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/serializer.py b/pydantic_xml/serializers/serializer.py
index 59b0ca0..b078235 100644
--- a/pydantic_xml/serializers/serializer.py
+++ b/pydantic_xml/serializers/serializer.py
@@ -9,7 +9,7 @@ from typing import Any, Dict, Optional, Tuple
 from pydantic_core import core_schema as pcs
 
 from pydantic_xml.element import SearchMode, XmlElementReader, XmlElementWriter
-from pydantic_xml.errors import ModelError
+from pydantic_xml.errors import ModelError, ModelFieldError
 from pydantic_xml.fields import XmlEntityInfoP
 from pydantic_xml.typedefs import EntityLocation, Location, NsMap
 from pydantic_xml.utils import select_ns
@@ -190,7 +190,8 @@ class Serializer(abc.ABC):
                 ctx = ctx.replace(optional=True)
 
             if schema_type == 'function-plain':
-                inner_schema = schema['serialization']
+                if (inner_schema := schema.get('serialization')) is None:
+                    raise ModelFieldError(ctx.model_name, ctx.field_name, "plain field validators are not supported")
             else:
                 inner_schema = schema['schema']
 
-- 
2.43.0


From 1394d7f2c124a0e1d576ae61d001ecf0b2e593a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:44 +0000
Subject: [PATCH 21/42] fix: let a model override the xml field hooks of its
 bases

---
 pydantic_xml/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 2473bff..b5bad69 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -129,7 +129,12 @@ class XmlModelMeta(ModelMetaclass):
         # though we want to skip any BaseModel attributes, as these can never be field
         # serializers/validators, and getting certain pydantic fields
         # may cause recursion errors for recursive / self-referential models
-        for attr_name in set(dir(cls)) - set(dir(BaseModel)):
+        # base classes go first so that a class can override hooks defined by its bases
+        attr_names = [attr_name for base in reversed(cls.__mro__) for attr_name in vars(base)]
+        base_attr_names = set(dir(BaseModel))
+        for attr_name in attr_names:
+            if attr_name in base_attr_names:
+                continue
             if func := getattr(cls, attr_name, None):
                 if fields := getattr(func, '__xml_field_serializer__', None):
                     for field in fields:
-- 
2.43.0


From 9d1d76a4ec2ddfb8241d95a81403a12a67b1ef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:49 +0000
Subject: [PATCH 22/42] fix: call xml field hooks of root models

---
 pydantic_xml/serializers/factories/model.py | 24 +++++++++++++--------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index c4af96e..03a9402 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -322,12 +322,15 @@ class RootModelSerializer(BaseModelSerializer):
         if self._model.__xml_skip_empty__ is not None:
             skip_empty = self._model.__xml_skip_empty__
 
-        self._root_serializer.serialize(
-            element, getattr(value, 'root'), encoded,
-            skip_empty=skip_empty,
-            exclude_none=exclude_none,
-            exclude_unset=exclude_unset,
-        )
+        if custom_field_serializer := self._model.__xml_field_serializers__.get('root'):
+            custom_field_serializer(value, element, getattr(value, 'root'), 'root')
+        else:
+            self._root_serializer.serialize(
+                element, getattr(value, 'root'), encoded,
+                skip_empty=skip_empty,
+                exclude_none=exclude_none,
+                exclude_unset=exclude_unset,
+            )
 
         return element
 
@@ -347,9 +350,12 @@ class RootModelSerializer(BaseModelSerializer):
         sourcemap = {(): element.get_sourceline()}
 
         try:
-            result = self._root_serializer.deserialize(
-                element, context=context, sourcemap=sourcemap, loc=(), empty_as_string=empty_as_string,
-            )
+            if custom_field_validator := self._model.__xml_field_validators__.get('root'):
+                result = custom_field_validator(self._model, element, 'root')
+            else:
+                result = self._root_serializer.deserialize(
+                    element, context=context, sourcemap=sourcemap, loc=(), empty_as_string=empty_as_string,
+                )
             if result is None:
                 result = pdc.PydanticUndefined
         except pd.ValidationError as err:
-- 
2.43.0


From e401b9fee5c4181d19691a4e03aa82de55e7eafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:40 +0000
Subject: [PATCH 23/42] fix: pass the module to pydantic when a model is
 created dynamically

---
 pydantic_xml/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index b5bad69..fcad83f 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -88,7 +88,12 @@ def create_model(
         else:
             model_base = (*model_base, BaseWithConfig)
 
-    model = pd.create_model(__model_name, __base__=model_base, **kwargs)
+    model = pd.create_model(
+        __model_name,
+        __base__=model_base,
+        __module__=__module__,  # type: ignore[arg-type]
+        **kwargs,
+    )
 
     return typing.cast(Type[Model], model)
 
-- 
2.43.0


From 85d6ff506f3367eec24bce003005368b430b92cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:20 +0000
Subject: [PATCH 24/42] fix: resolve forward references of the caller scope
 when a model is rebuilt

---
 pydantic_xml/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index fcad83f..1f9ed38 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -250,12 +250,15 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
             cls.__xml_serializer__ = None
 
     @classmethod
-    def model_rebuild(cls, **kwargs: Any) -> None:
-        super().model_rebuild(**kwargs)
+    def model_rebuild(cls, *, _parent_namespace_depth: int = 2, **kwargs: Any) -> Optional[bool]:
+        # pydantic resolves forward references using the caller frame, this method adds one more frame
+        result = super().model_rebuild(_parent_namespace_depth=_parent_namespace_depth + 1, **kwargs)
 
         if cls.__xml_serializer__ is None and cls.__pydantic_complete__:
             cls.__build_serializer__()
 
+        return result
+
     @classmethod
     def from_xml_tree(
             cls: Type[ModelT],
-- 
2.43.0


From fa01abc1c612670b4a9a72863d3c6b3c2bfef794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:12 +0000
Subject: [PATCH 25/42] fix: build generic models parametrized by a root model
 that declares its root field

---
 pydantic_xml/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 1f9ed38..eb2a80d 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -222,7 +222,8 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
                     cls.__xml_serializer__ = None
                     return
         else:
-            if cls.__pydantic_generic_metadata__['parameters']:
+            # a root model that declares its root field is not parametrized but keeps the root type variable
+            if any(param is not RootModelRootType for param in cls.__pydantic_generic_metadata__['parameters']):
                 cls.__xml_serializer__ = None
                 return
 
-- 
2.43.0


From d23506dedc268f7ed806b5eacded7f63d1243d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 26/42] fix: reject collections of variadic tuples

The items of such a collection can't be told apart, so that reading
merged all of them into a single item.
---
 pydantic_xml/serializers/factories/homogeneous.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/serializers/factories/homogeneous.py b/pydantic_xml/serializers/factories/homogeneous.py
index ea1f3c9..d4c2e72 100644
--- a/pydantic_xml/serializers/factories/homogeneous.py
+++ b/pydantic_xml/serializers/factories/homogeneous.py
@@ -130,6 +130,9 @@ def from_core_schema(schema: HomogeneousCollectionTypeSchema, ctx: Serializer.Co
             ctx.model_name, ctx.field_name, "collection item must be of primitive, model, mapping, union or tuple type",
         )
 
+    if items_type_family is SchemaTypeFamily.TUPLE and items_schema.get('variadic_item_index') is not None:
+        raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "collection item can't be a variadic tuple")
+
     if items_type_family not in (
             SchemaTypeFamily.MODEL,
             SchemaTypeFamily.UNION,
-- 
2.43.0


From fa25789bd02bb7294eb4f3ce6f7d3e98f555dc32 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 27/42] fix: make the mypy plugin recognize frozen fields
 declared by pydantic Field

---
 pydantic_xml/mypy.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index b885fc5..fbfab00 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -95,16 +95,14 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
         if isinstance(expr, nodes.TempNode):
             return False
 
-        if not (
+        if (
             isinstance(expr, nodes.CallExpr) and
             isinstance(expr.callee, nodes.RefExpr) and
             expr.callee.fullname in ENTITIES_FULLNAME
         ):
-            return False
-
-        for i, arg_name in enumerate(expr.arg_names):
-            if arg_name == 'frozen':
-                arg = expr.args[i]
-                return isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.True'
+            for i, arg_name in enumerate(expr.arg_names):
+                if arg_name == 'frozen':
+                    arg = expr.args[i]
+                    return isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.True'
 
         return PydanticModelTransformer.is_field_frozen(stmt)
-- 
2.43.0


From e3566f0cce7ae09796fa9abe8561002b7e160cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:08 +0000
Subject: [PATCH 28/42] fix: let type checkers accept the positional argument
 of root models

---
 pydantic_xml/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index eb2a80d..bd86cf7 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -365,7 +365,7 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
         )
 
 
-@te.dataclass_transform(kw_only_default=True, field_specifiers=(attr, element, wrapped, pd.Field))
+@te.dataclass_transform(kw_only_default=False, field_specifiers=(attr, element, wrapped, pd.Field))
 class RootXmlModelMeta(XmlModelMeta, RootModelMetaclass):
     pass
 
-- 
2.43.0


From dec363fda15e62474a3cb7ecfccd16dfd18ece6f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 29/42] fix: make the mypy plugin respect validation aliases of
 attr, element and wrapped

---
 pydantic_xml/mypy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index fbfab00..a4a423e 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -59,9 +59,10 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
             isinstance(expr.callee, nodes.RefExpr) and
             expr.callee.fullname in ENTITIES_FULLNAME
         ):
-            for arg, arg_name in zip(expr.args, expr.arg_names):
-                if arg_name != 'alias':
+            for alias_arg_name in ('validation_alias', 'alias'):
+                if alias_arg_name not in expr.arg_names:
                     continue
+                arg = expr.args[expr.arg_names.index(alias_arg_name)]
                 if isinstance(arg, nodes.StrExpr):
                     return arg.value, False
                 else:
-- 
2.43.0


From 4ee51c54074a1f500bb8fbc5d6485be4378b1734 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:40:50 +0000
Subject: [PATCH 30/42] fix: make the mypy plugin take the arguments of wrapped
 entities into account

---
 pydantic_xml/mypy.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index a4a423e..7ac206f 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -1,4 +1,4 @@
-from typing import Callable, Optional, Tuple, Union
+from typing import Callable, Iterator, Optional, Tuple, Union
 
 from mypy import nodes
 from mypy.plugin import ClassDefContext, Plugin
@@ -26,6 +26,21 @@ class PydanticXmlPlugin(PydanticPlugin):
         transformer.transform()
 
 
+def iter_entity_args(expr: nodes.CallExpr) -> Iterator[Tuple[nodes.Expression, Optional[str]]]:
+    """
+    Iterates over the entity arguments starting from the arguments of the wrapped entity since they take precedence.
+    """
+
+    if isinstance(expr.callee, nodes.RefExpr) and expr.callee.fullname == WRAPPED_FULLNAME:
+        for i, (arg, name) in enumerate(zip(expr.args, expr.arg_names)):
+            if (name == 'entity' or (name is None and i == 1)) and isinstance(arg, nodes.CallExpr):
+                for entity_arg, entity_arg_name in iter_entity_args(arg):
+                    if not isinstance(entity_arg, nodes.EllipsisExpr):
+                        yield entity_arg, entity_arg_name
+
+    yield from zip(expr.args, expr.arg_names)
+
+
 class PydanticXmlModelTransformer(PydanticModelTransformer):
     @staticmethod
     def get_has_default(stmt: nodes.AssignmentStmt) -> bool:
@@ -38,7 +53,7 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
             isinstance(expr.callee, nodes.RefExpr) and
             expr.callee.fullname in ENTITIES_FULLNAME
         ):
-            for arg, name in zip(expr.args, expr.arg_names):
+            for arg, name in iter_entity_args(expr):
                 if name == 'default':
                     return arg.__class__ is not nodes.EllipsisExpr
                 if name == 'default_factory':
@@ -60,13 +75,13 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
             expr.callee.fullname in ENTITIES_FULLNAME
         ):
             for alias_arg_name in ('validation_alias', 'alias'):
-                if alias_arg_name not in expr.arg_names:
-                    continue
-                arg = expr.args[expr.arg_names.index(alias_arg_name)]
-                if isinstance(arg, nodes.StrExpr):
-                    return arg.value, False
-                else:
-                    return None, True
+                for arg, name in iter_entity_args(expr):
+                    if name != alias_arg_name:
+                        continue
+                    if isinstance(arg, nodes.StrExpr):
+                        return arg.value, False
+                    else:
+                        return None, True
 
         return PydanticModelTransformer.get_alias_info(stmt)
 
@@ -78,7 +93,7 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
             isinstance(expr.callee, nodes.RefExpr) and
             expr.callee.fullname in ENTITIES_FULLNAME
         ):
-            for arg, name in zip(expr.args, expr.arg_names):
+            for arg, name in iter_entity_args(expr):
                 if name != 'strict':
                     continue
                 if isinstance(arg, nodes.NameExpr):
@@ -101,9 +116,8 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
             isinstance(expr.callee, nodes.RefExpr) and
             expr.callee.fullname in ENTITIES_FULLNAME
         ):
-            for i, arg_name in enumerate(expr.arg_names):
-                if arg_name == 'frozen':
-                    arg = expr.args[i]
+            for arg, name in iter_entity_args(expr):
+                if name == 'frozen':
                     return isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.True'
 
         return PydanticModelTransformer.is_field_frozen(stmt)
-- 
2.43.0


From 1e1b49cda353df8a8e11dc8a722a519933caa7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:48 +0000
Subject: [PATCH 31/42] fix: serialize discriminated unions with an empty
 string tag

---
 pydantic_xml/serializers/factories/tagged_union.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/tagged_union.py b/pydantic_xml/serializers/factories/tagged_union.py
index 22652ab..8f91f8a 100644
--- a/pydantic_xml/serializers/factories/tagged_union.py
+++ b/pydantic_xml/serializers/factories/tagged_union.py
@@ -79,8 +79,8 @@ class ModelSerializer(Serializer):
         if value is None:
             return None
 
-        if (tag := encoded.get(self._discriminator)) and (serializer := self._inner_serializers[tag]):
-            return serializer.serialize(
+        if (tag := encoded.get(self._discriminator)) is not None:
+            return self._inner_serializers[tag].serialize(
                 element, value, encoded, skip_empty=skip_empty, exclude_none=exclude_none, exclude_unset=exclude_unset,
             )
 
-- 
2.43.0


From 4c77e031a21c89a32333d58a84e95fa670bf8afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:48 +0000
Subject: [PATCH 32/42] fix: apply the aliases of typed dict keys

---
 pydantic_xml/serializers/factories/mapping.py | 53 +++++++++++++++----
 pydantic_xml/serializers/factories/model.py   | 12 ++---
 pydantic_xml/serializers/serializer.py        | 15 ++++++
 3 files changed, 61 insertions(+), 19 deletions(-)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index 44e670c..8bb9a00 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -1,14 +1,33 @@
-from typing import Any, Dict, Optional
+from typing import Any, Dict, Optional, Tuple
 
 from pydantic_core import core_schema as pcs
 
 from pydantic_xml import errors
 from pydantic_xml.element import XmlElementReader, XmlElementWriter
 from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, SearchMode, Serializer, encode_primitive
+from pydantic_xml.serializers.serializer import get_validation_key
 from pydantic_xml.typedefs import EntityLocation, Location, NsMap
 from pydantic_xml.utils import QName, merge_nsmaps, select_ns
 
 
+def get_keys_aliases(schema: pcs.CoreSchema) -> Tuple[Dict[str, str], Dict[str, str]]:
+    """
+    Returns attribute names of the mapping keys and the keys the mapping is validated by for those attributes.
+    """
+
+    attr_names: Dict[str, str] = {}
+    keys: Dict[str, str] = {}
+    if schema['type'] == 'typed-dict':
+        validate_by_alias = schema.get('config', {}).get('validate_by_alias') is not False
+        for key, field in schema['fields'].items():
+            attr_names[key] = attr_name = field.get('serialization_alias') or key
+            keys[attr_name] = key
+            if validate_by_alias and (validation_key := get_validation_key(field.get('validation_alias'))):
+                keys[attr_name] = validation_key
+
+    return attr_names, keys
+
+
 class AttributesSerializer(Serializer):
     @classmethod
     def from_core_schema(cls, schema: pcs.CoreSchema, ctx: Serializer.Context) -> 'AttributesSerializer':
@@ -17,13 +36,23 @@ class AttributesSerializer(Serializer):
         namespaced_attrs = ctx.namespaced_attrs
         computed = ctx.field_computed
 
-        return cls(ns, nsmap, namespaced_attrs, computed)
+        return cls(ns, nsmap, namespaced_attrs, computed, *get_keys_aliases(schema))
 
-    def __init__(self, ns: Optional[str], nsmap: Optional[NsMap], namespaced_attrs: bool, computed: bool):
+    def __init__(
+            self,
+            ns: Optional[str],
+            nsmap: Optional[NsMap],
+            namespaced_attrs: bool,
+            computed: bool,
+            attr_names: Dict[str, str],
+            keys: Dict[str, str],
+    ):
         self._ns = ns
         self._namespaced_attrs = namespaced_attrs
         self._nsmap = nsmap
         self._computed = computed
+        self._attr_names = attr_names
+        self._keys = keys
 
     def serialize(
             self,
@@ -40,7 +69,7 @@ class AttributesSerializer(Serializer):
 
         ns = self._nsmap.get(self._ns) if self._namespaced_attrs and self._ns and self._nsmap else None
         for attr, enc in encoded.items():
-            element.set_attribute(QName(tag=attr, ns=ns).uri, encode_primitive(enc))
+            element.set_attribute(QName(tag=self._attr_names.get(attr, attr), ns=ns).uri, encode_primitive(enc))
 
         return element
 
@@ -59,10 +88,12 @@ class AttributesSerializer(Serializer):
         if element is None or (attributes := element.pop_attributes()) is None:
             return None
 
-        return {
-            QName.from_uri(attr).tag if self._namespaced_attrs else attr: val
-            for attr, val in attributes.items()
-        }
+        result: Dict[str, str] = {}
+        for attr, val in attributes.items():
+            attr = QName.from_uri(attr).tag if self._namespaced_attrs else attr
+            result[self._keys.get(attr, attr)] = val
+
+        return result
 
 
 class ElementSerializer(AttributesSerializer):
@@ -78,7 +109,7 @@ class ElementSerializer(AttributesSerializer):
         if name is None:
             raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "entity name is not provided")
 
-        return cls(name, ns, nsmap, namespaced_attrs, search_mode, computed)
+        return cls(name, ns, nsmap, namespaced_attrs, search_mode, computed, *get_keys_aliases(schema))
 
     def __init__(
             self,
@@ -88,8 +119,10 @@ class ElementSerializer(AttributesSerializer):
             namespaced_attrs: bool,
             search_mode: SearchMode,
             computed: bool,
+            attr_names: Dict[str, str],
+            keys: Dict[str, str],
     ):
-        super().__init__(ns, nsmap, namespaced_attrs, computed)
+        super().__init__(ns, nsmap, namespaced_attrs, computed, attr_names, keys)
         self._search_mode = search_mode
         self._name = name
         self._element_name = QName.from_alias(tag=self._name, ns=self._ns, nsmap=self._nsmap).uri
diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index 03a9402..b81a386 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -10,7 +10,7 @@ import pydantic_xml as pxml
 from pydantic_xml import errors, utils
 from pydantic_xml.element import XmlElementReader, XmlElementWriter, is_element_nill, make_element_nill
 from pydantic_xml.fields import ComputedXmlEntityInfo, NoXml, XmlEntityInfoP, extract_field_xml_entity_info
-from pydantic_xml.serializers.serializer import SearchMode, Serializer
+from pydantic_xml.serializers.serializer import SearchMode, Serializer, get_validation_key
 from pydantic_xml.typedefs import EntityLocation, Location, NsMap
 from pydantic_xml.utils import QName, merge_nsmaps, select_ns
 
@@ -85,14 +85,8 @@ class ModelSerializer(BaseModelSerializer):
                 fields_serialization_exclude.add(field_name)
 
             field_alias = model_field.get('serialization_alias')
-            if validate_by_alias and (validation_alias := model_field.get('validation_alias')):
-                if isinstance(validation_alias, str):
-                    fields_validation_aliases[field_name] = validation_alias
-                else:  # any of alias choices is suitable unless it is an alias path
-                    for alias_path in validation_alias:
-                        if isinstance(alias_path, list) and len(alias_path) == 1:
-                            fields_validation_aliases[field_name] = str(alias_path[0])
-                            break
+            if validate_by_alias and (validation_key := get_validation_key(model_field.get('validation_alias'))):
+                fields_validation_aliases[field_name] = validation_key
 
             field_ctx = ctx.child(
                 field_name=field_name,
diff --git a/pydantic_xml/serializers/serializer.py b/pydantic_xml/serializers/serializer.py
index b078235..3585e6b 100644
--- a/pydantic_xml/serializers/serializer.py
+++ b/pydantic_xml/serializers/serializer.py
@@ -26,6 +26,21 @@ def encode_primitive(value: Any) -> str:
         return str(value)
 
 
+def get_validation_key(validation_alias: Any) -> Optional[str]:
+    """
+    Returns a key a field is validated by: any of alias choices is suitable unless it is an alias path.
+    """
+
+    if isinstance(validation_alias, str):
+        return validation_alias
+
+    for alias_path in validation_alias or ():
+        if isinstance(alias_path, list) and len(alias_path) == 1:
+            return str(alias_path[0])
+
+    return None
+
+
 class SchemaTypeFamily(IntEnum):
     META = 0
     PRIMITIVE = 1
-- 
2.43.0


From b543f6cf0764e127891a860c225035c8fb307ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:54 +0000
Subject: [PATCH 33/42] fix: do not let the order of attributes decide which of
 them a mapping key is read from

---
 pydantic_xml/serializers/factories/mapping.py | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index 8bb9a00..e13a7d3 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -67,7 +67,7 @@ class AttributesSerializer(Serializer):
         if value is None:
             return element
 
-        ns = self._nsmap.get(self._ns) if self._namespaced_attrs and self._ns and self._nsmap else None
+        ns = self._get_attrs_ns()
         for attr, enc in encoded.items():
             element.set_attribute(QName(tag=self._attr_names.get(attr, attr), ns=ns).uri, encode_primitive(enc))
 
@@ -88,12 +88,20 @@ class AttributesSerializer(Serializer):
         if element is None or (attributes := element.pop_attributes()) is None:
             return None
 
-        result: Dict[str, str] = {}
-        for attr, val in attributes.items():
-            attr = QName.from_uri(attr).tag if self._namespaced_attrs else attr
-            result[self._keys.get(attr, attr)] = val
+        ns = self._get_attrs_ns()
+        sources: Dict[str, Tuple[bool, bool, str]] = {}
+        for attr in attributes:
+            qname = QName.from_uri(attr)
+            name = qname.tag if self._namespaced_attrs else attr
+            # whatever the attributes order is, the attribute the key would be serialized to takes precedence
+            source = (name in self._keys, qname.ns == ns, attr)
+            key = self._keys.get(name, name)
+            sources[key] = max(sources.get(key, source), source)
 
-        return result
+        return {key: attributes[attr] for key, (*_, attr) in sources.items()}
+
+    def _get_attrs_ns(self) -> Optional[str]:
+        return self._nsmap.get(self._ns) if self._namespaced_attrs and self._ns and self._nsmap else None
 
 
 class ElementSerializer(AttributesSerializer):
-- 
2.43.0


From 25d1f94b4a672ea14e124f60623f45c81d2cdec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:29 +0000
Subject: [PATCH 34/42] fix: serialize models with conditionally excluded
 fields (exclude_if)

---
 pydantic_xml/serializers/factories/model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index b81a386..bfaff44 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -74,6 +74,7 @@ class ModelSerializer(BaseModelSerializer):
 
         entity_info: Optional[XmlEntityInfoP]
         fields_serialization_exclude: Set[str] = set()
+        fields_serialization_exclude_if: Set[str] = set()
         fields_validation_aliases: Dict[str, str] = {}
         fields_serializers: Dict[str, Serializer] = {}
         for field_name, model_field in fields_schema['fields'].items():
@@ -83,6 +84,8 @@ class ModelSerializer(BaseModelSerializer):
 
             if model_field.get('serialization_exclude', False):
                 fields_serialization_exclude.add(field_name)
+            if model_field.get('serialization_exclude_if') is not None:
+                fields_serialization_exclude_if.add(field_name)
 
             field_alias = model_field.get('serialization_alias')
             if validate_by_alias and (validation_key := get_validation_key(model_field.get('validation_alias'))):
@@ -121,7 +124,7 @@ class ModelSerializer(BaseModelSerializer):
 
         return cls(
             model_cls, name, ns, nsmap,
-            fields_serializers, fields_validation_aliases, fields_serialization_exclude,
+            fields_serializers, fields_validation_aliases, fields_serialization_exclude, fields_serialization_exclude_if,
             hide_input_in_errors,
         )
 
@@ -134,6 +137,7 @@ class ModelSerializer(BaseModelSerializer):
             field_serializers: Dict[str, Serializer],
             fields_validation_aliases: Dict[str, str],
             fields_serialization_exclude: Set[str],
+            fields_serialization_exclude_if: Set[str],
             hide_input_in_errors: bool,
     ):
 
@@ -143,6 +147,7 @@ class ModelSerializer(BaseModelSerializer):
         self._nsmap = nsmap
         self._fields_validation_aliases = fields_validation_aliases
         self._fields_serialization_exclude = fields_serialization_exclude
+        self._fields_serialization_exclude_if = fields_serialization_exclude_if
         self._hide_input_in_errors = hide_input_in_errors
 
     @property
@@ -180,6 +185,8 @@ class ModelSerializer(BaseModelSerializer):
         for field_name, field_serializer in self._field_serializers.items():
             if field_name in self._fields_serialization_exclude:
                 continue
+            if field_name in self._fields_serialization_exclude_if and field_name not in encoded:
+                continue
             if exclude_unset and field_name not in value.__pydantic_fields_set__:
                 continue
 
-- 
2.43.0


From 0928e9d38c85e19bb5669de007426897d70d3053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:09 +0000
Subject: [PATCH 35/42] fix: do not take unresolved entity references for
 elements (lxml)

---
 pydantic_xml/element/native/lxml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index 2ea098e..a9241b8 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -76,4 +76,4 @@ def force_str(val: Union[str, bytes]) -> str:
 
 
 def is_xml_special(element: ElementT) -> bool:
-    return isinstance(element, (etree._Comment, etree._ProcessingInstruction))
+    return isinstance(element, (etree._Comment, etree._ProcessingInstruction, etree._Entity))
-- 
2.43.0


From 4e24d06e2ea8ff10d5e6c7c25b1392a2b926fdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:21 +0000
Subject: [PATCH 36/42] fix: do not drop wrapped values of length zero that
 have content with skip_empty

A wrapped raw element without sub-elements, or a model that defines
__len__, was taken for empty although it has attributes or text, and a
wrapped attribute holding an empty string was dropped although an
unwrapped one is kept.
---
 pydantic_xml/serializers/factories/wrapper.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pydantic_xml/serializers/factories/wrapper.py b/pydantic_xml/serializers/factories/wrapper.py
index f6800e5..4b146d7 100644
--- a/pydantic_xml/serializers/factories/wrapper.py
+++ b/pydantic_xml/serializers/factories/wrapper.py
@@ -1,4 +1,4 @@
-from typing import Any, Dict, List, Optional, Sized
+from typing import Any, Dict, List, Optional
 
 from pydantic_core import core_schema as pcs
 
@@ -52,9 +52,6 @@ class ElementPathSerializer(Serializer):
         if value is None:
             return element
 
-        if skip_empty and isinstance(value, Sized) and len(value) == 0:
-            return element
-
         parents: List[XmlElementWriter] = []
         for part in self._path:
             parents.append(element)
-- 
2.43.0


From 44620ef12bb4f43019111887b6e69592a89da397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:05 +0000
Subject: [PATCH 37/42] fix: mark nillable wrapped elements holding None as nil

---
 pydantic_xml/serializers/factories/model.py     | 4 ++++
 pydantic_xml/serializers/factories/primitive.py | 4 ++++
 pydantic_xml/serializers/factories/union.py     | 4 ++++
 pydantic_xml/serializers/factories/wrapper.py   | 6 +++++-
 pydantic_xml/serializers/serializer.py          | 8 ++++++++
 5 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index bfaff44..e394c18 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -407,6 +407,10 @@ class ModelProxySerializer(BaseModelSerializer):
         self._computed = computed
         self._nillable = nillable
 
+    @property
+    def nillable(self) -> bool:
+        return bool(self._nillable)
+
     @property
     def model(self) -> Type['pxml.BaseXmlModel']:
         return self._model
diff --git a/pydantic_xml/serializers/factories/primitive.py b/pydantic_xml/serializers/factories/primitive.py
index e26212a..2936fed 100644
--- a/pydantic_xml/serializers/factories/primitive.py
+++ b/pydantic_xml/serializers/factories/primitive.py
@@ -174,6 +174,10 @@ class ElementSerializer(TextSerializer):
         self._search_mode = search_mode
         self._element_name = QName.from_alias(tag=name, ns=ns, nsmap=nsmap).uri
 
+    @property
+    def nillable(self) -> bool:
+        return bool(self._nillable)
+
     def serialize(
             self,
             element: XmlElementWriter,
diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index 273d348..ba0e5d2 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -35,6 +35,10 @@ class PrimitiveTypeSerializer(Serializer):
         self._computed = computed
         self._inner_serializer = inner_serializer
 
+    @property
+    def nillable(self) -> bool:
+        return self._inner_serializer.nillable
+
     def serialize(
             self,
             element: XmlElementWriter,
diff --git a/pydantic_xml/serializers/factories/wrapper.py b/pydantic_xml/serializers/factories/wrapper.py
index 4b146d7..23e3d9b 100644
--- a/pydantic_xml/serializers/factories/wrapper.py
+++ b/pydantic_xml/serializers/factories/wrapper.py
@@ -39,6 +39,10 @@ class ElementPathSerializer(Serializer):
         self._computed = computed
         self._inner_serializer = inner_serializer
 
+    @property
+    def nillable(self) -> bool:
+        return self._inner_serializer.nillable
+
     def serialize(
             self,
             element: XmlElementWriter,
@@ -49,7 +53,7 @@ class ElementPathSerializer(Serializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
-        if value is None:
+        if value is None and (skip_empty or exclude_none or not self.nillable):
             return element
 
         parents: List[XmlElementWriter] = []
diff --git a/pydantic_xml/serializers/serializer.py b/pydantic_xml/serializers/serializer.py
index 3585e6b..f0f63a2 100644
--- a/pydantic_xml/serializers/serializer.py
+++ b/pydantic_xml/serializers/serializer.py
@@ -289,6 +289,14 @@ class Serializer(abc.ABC):
         else:
             raise AssertionError("unreachable")
 
+    @property
+    def nillable(self) -> bool:
+        """
+        Whether `None` is serialized to an element marked as nil.
+        """
+
+        return False
+
     @abc.abstractmethod
     def serialize(
             self,
-- 
2.43.0


From f3b83aa942e3a720bd7f0554c5d0bb3cab28850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:43 +0000
Subject: [PATCH 38/42] fix: choose the member of a discriminated union by the
 value, not by its encoded data

---
 pydantic_xml/serializers/factories/tagged_union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/factories/tagged_union.py b/pydantic_xml/serializers/factories/tagged_union.py
index 8f91f8a..031bded 100644
--- a/pydantic_xml/serializers/factories/tagged_union.py
+++ b/pydantic_xml/serializers/factories/tagged_union.py
@@ -79,7 +79,7 @@ class ModelSerializer(Serializer):
         if value is None:
             return None
 
-        if (tag := encoded.get(self._discriminator)) is not None:
+        if (tag := getattr(value, self._discriminator, None)) is not None:
             return self._inner_serializers[tag].serialize(
                 element, value, encoded, skip_empty=skip_empty, exclude_none=exclude_none, exclude_unset=exclude_unset,
             )
-- 
2.43.0


From a142bd7419475b3c97b6be63b29e94ee94050e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:35 +0000
Subject: [PATCH 39/42] fix: do not use rendered error messages as templates

---
 pydantic_xml/serializers/factories/model.py |  2 +-
 pydantic_xml/utils.py                       | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index e394c18..67dd42d 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -37,7 +37,7 @@ class BaseModelSerializer(Serializer, abc.ABC):
                 pdc.InitErrorDetails(
                     type=pdc.PydanticCustomError(
                         'extra_forbidden',
-                        "[line {sourceline}]: {orig}",
+                        utils.SOURCELINE_TEMPLATE,
                         {
                             'sourceline': (path or (element,))[-1].get_sourceline(),
                             'orig': "Extra inputs are not permitted",
diff --git a/pydantic_xml/utils.py b/pydantic_xml/utils.py
index 55cf800..eb9eefc 100644
--- a/pydantic_xml/utils.py
+++ b/pydantic_xml/utils.py
@@ -12,6 +12,8 @@ from pydantic_xml import errors
 from .element.native import etree
 from .typedefs import Location, NsMap
 
+SOURCELINE_TEMPLATE = "[line {sourceline}]: {orig}"
+
 
 @dc.dataclass(frozen=True)
 class QName:
@@ -114,9 +116,15 @@ def into_validation_error(
     for location in list(errors_map):
         validation_error = errors_map.pop(location)
         for error in validation_error.errors():
+            template, ctx = error['msg'], error.get('ctx')
+            if ctx:
+                # a message that is already rendered must not be used as a template once again
+                template = SOURCELINE_TEMPLATE if 'sourceline' in ctx else '{orig}'
+                ctx = {**ctx, 'orig': ctx.get('orig', error['msg'])}
+
             line_errors.append(
                 pdc.InitErrorDetails(
-                    type=pdc.PydanticCustomError(error['type'], error['msg'], error.get('ctx')),
+                    type=pdc.PydanticCustomError(error['type'], template, ctx),
                     loc=(location, *error['loc']) if location is not None else error['loc'],
                     input=error['input'],
                 ),
@@ -146,7 +154,7 @@ def set_validation_error_sourceline(
             pdc.InitErrorDetails(
                 type=pdc.PydanticCustomError(
                     error['type'],
-                    "[line {sourceline}]: {orig}",
+                    SOURCELINE_TEMPLATE,
                     {'sourceline': sourceline, 'orig': error['msg']},
                 ),
                 loc=error['loc'],
-- 
2.43.0


From 8e59b34b37185b030323eb470180db5d2c383f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:42 +0000
Subject: [PATCH 40/42] fix: keep the arguments of a computed entity decorator
 that is applied several times

---
 pydantic_xml/fields.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pydantic_xml/fields.py b/pydantic_xml/fields.py
index a69b85d..73e5245 100644
--- a/pydantic_xml/fields.py
+++ b/pydantic_xml/fields.py
@@ -262,12 +262,13 @@ def computed_entity(
         prop: Optional[PropertyT] = None,
         **kwargs: Any,
 ) -> Union[PropertyT, Callable[[PropertyT], PropertyT]]:
-    def decorator(prop: Any) -> Any:
-        path = kwargs.pop('path', None)
-        ns = kwargs.pop('ns', None)
-        nsmap = kwargs.pop('nsmap', None)
-        nillable = kwargs.pop('nillable', None)
+    # the decorator can be applied several times so that it must not change the arguments
+    path = kwargs.pop('path', None)
+    ns = kwargs.pop('ns', None)
+    nsmap = kwargs.pop('nsmap', None)
+    nillable = kwargs.pop('nillable', None)
 
+    def decorator(prop: Any) -> Any:
         descriptor_proxy = pd.computed_field(**kwargs)(prop)
         descriptor_proxy.decorator_info = ComputedXmlEntityInfo(
             location=location,
-- 
2.43.0


From e2bfdc31d9185fb705d8d97db62bba7bdf0f85b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:17 +0000
Subject: [PATCH 41/42] fix: do not mark functions used as hooks so that
 several fields and models can share one

---
 pydantic_xml/fields.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pydantic_xml/fields.py b/pydantic_xml/fields.py
index 73e5245..7a570d7 100644
--- a/pydantic_xml/fields.py
+++ b/pydantic_xml/fields.py
@@ -1,5 +1,6 @@
 import copy
 import dataclasses as dc
+import functools
 import typing
 from typing import Any, Callable, Dict, Optional, Union, overload
 
@@ -375,8 +376,14 @@ def xml_field_validator(
     def wrapper(func: model.ValidatorFuncT[model.ModelT]) -> model.ValidatorFuncT[model.ModelT]:
         if isinstance(func, (classmethod, staticmethod)):
             func = func.__func__
-        setattr(func, '__xml_field_validator__', (field, *fields))
-        return func
+
+        @functools.wraps(func)
+        def hook(*args: Any, **kwargs: Any) -> Any:
+            return func(*args, **kwargs)
+
+        # the function itself is not marked since it can be shared between several fields or models
+        setattr(hook, '__xml_field_validator__', (field, *fields))
+        return hook
 
     return wrapper
 
@@ -392,8 +399,13 @@ def xml_field_serializer(
     """
 
     def wrapper(func: model.SerializerFuncT[model.ModelT]) -> model.SerializerFuncT[model.ModelT]:
-        setattr(func, '__xml_field_serializer__', (field, *fields))
-        return func
+        @functools.wraps(func)
+        def hook(*args: Any, **kwargs: Any) -> Any:
+            return func(*args, **kwargs)
+
+        # the function itself is not marked since it can be shared between several fields or models
+        setattr(hook, '__xml_field_serializer__', (field, *fields))
+        return hook
 
     return wrapper
 
-- 
2.43.0


From f5c9db9888c1f2daf7a902be8356063c478b38f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:22 +0000
Subject: [PATCH 42/42] fix: accept __cls_kwargs__=None in create_model and
 leave the passed dictionary as it is

---
 pydantic_xml/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index bd86cf7..dd2cfb8 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -63,7 +63,8 @@ def create_model(
     :return: created model
     """
 
-    cls_kwargs = kwargs.setdefault('__cls_kwargs__', {})
+    # the caller's dictionary must not be changed
+    cls_kwargs = kwargs['__cls_kwargs__'] = dict(kwargs.get('__cls_kwargs__') or {})
     cls_kwargs['metaclass'] = XmlModelMeta
 
     cls_kwargs['tag'] = __tag__
-- 
2.43.0

