From 98e439b1f0e8f75dcfd31d32b56864955d7e10b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 01/50] fix: falsy keywords such as "no" convert to False, not
 True

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index e04df80..12ea1a5 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -52,7 +52,7 @@ def _bool_from_str(s: str) -> bool:
     if s.lower() in ("yes", "true", "on", "enabled"):
         return True
     if s.lower() in ("no", "false", "off", "disabled"):
-        return True
+        return False
     raise ValueError(f"not a truthy keyword: {s!r}")
 
 
-- 
2.43.0


From 5bd7412c2e9cbb86224738d2b05c8d0019e324c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 02/50] fix: report lossy and overflowing number conversions as
 ConversionError

---
 databind/src/databind/json/converters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 12ea1a5..31cf5a8 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -42,7 +42,8 @@ T = t.TypeVar("T")
 def _int_lossless(v: float) -> int:
     """Convert *v* to an integer only if the conversion is lossless, otherwise raise an error."""
 
-    assert v % 1.0 == 0.0, f"expected int, got {v!r}"
+    if v % 1.0 != 0.0:
+        raise ValueError(f"expected int, got {v!r}")
     return int(v)
 
 
@@ -434,7 +435,7 @@ class PlainDatatypeConverter(Converter):
 
         try:
             return adapter(ctx.value)
-        except ValueError as exc:
+        except (ValueError, OverflowError) as exc:
             raise ConversionError(self, ctx, str(exc)) from exc
 
 
-- 
2.43.0


From e5b6a8170991239d19df5c4af9639641c0daa407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:33 +0000
Subject: [PATCH 03/50] fix: report malformed decimals as ConversionError

---
 databind/src/databind/json/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 31cf5a8..0dcd561 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -238,7 +238,10 @@ class DecimalConverter(Converter):
 
         if ctx.direction == Direction.DESERIALIZE:
             if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
-                return decimal.Decimal(ctx.value, context)
+                try:
+                    return decimal.Decimal(ctx.value, context)
+                except decimal.DecimalException as exc:
+                    raise ConversionError(self, ctx, f"not a valid decimal: {ctx.value!r}") from exc
             raise ConversionError.expected(self, ctx, str, type(ctx.value))
 
         else:
-- 
2.43.0


From 926905b88a891b326876279276d05ed2d4a8a41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 04/50] fix: apply the Precision setting when deserializing
 decimals

---
 databind/src/databind/json/converters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 0dcd561..65810df 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -239,9 +239,10 @@ class DecimalConverter(Converter):
         if ctx.direction == Direction.DESERIALIZE:
             if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
                 try:
-                    return decimal.Decimal(ctx.value, context)
+                    value = context.create_decimal(ctx.value) if context else decimal.Decimal(ctx.value)
                 except decimal.DecimalException as exc:
                     raise ConversionError(self, ctx, f"not a valid decimal: {ctx.value!r}") from exc
+                return value
             raise ConversionError.expected(self, ctx, str, type(ctx.value))
 
         else:
-- 
2.43.0


From 3e7179ad80443303ec0dd0d63a2d2006b8bc6b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 05/50] fix: respect the declared type for Decimal subclasses

---
 databind/src/databind/json/converters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 65810df..292d1f2 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -242,12 +242,12 @@ class DecimalConverter(Converter):
                     value = context.create_decimal(ctx.value) if context else decimal.Decimal(ctx.value)
                 except decimal.DecimalException as exc:
                     raise ConversionError(self, ctx, f"not a valid decimal: {ctx.value!r}") from exc
-                return value
+                return value if datatype.type is decimal.Decimal else datatype.type(value)
             raise ConversionError.expected(self, ctx, str, type(ctx.value))
 
         else:
-            if not isinstance(ctx.value, decimal.Decimal):
-                raise ConversionError.expected(self, ctx, decimal.Decimal, type(ctx.value))
+            if not isinstance(ctx.value, datatype.type):
+                raise ConversionError.expected(self, ctx, datatype.type, type(ctx.value))
             return str(ctx.value)
 
 
-- 
2.43.0


From 1b37a94caf68670ce05e5e4c8340df51fdc75de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 06/50] fix: convert bytes from and to base64 text according to
 the direction

---
 databind/src/databind/json/converters.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 292d1f2..6071e90 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -391,7 +391,6 @@ class PlainDatatypeConverter(Converter):
 
     # Map for (source_type, target_type)
     _strict_adapters: t.Dict[t.Tuple[type, type], t.Callable[[t.Any], t.Any]] = {
-        (bytes, bytes): lambda d: base64.b64encode(d).decode("ascii"),
         (str, bytes): base64.b64decode,
         (str, str): str,
         (int, int): int,
@@ -414,6 +413,11 @@ class PlainDatatypeConverter(Converter):
         }
     )
 
+    # Used only during serialization, where bytes become base64 text (instead of the reverse).
+    _serialize_adapters = _strict_adapters.copy()
+    _serialize_adapters.pop((str, bytes))
+    _serialize_adapters[(bytes, bytes)] = lambda d: base64.b64encode(d).decode("ascii")
+
     def __init__(self, strict_by_default: bool = True) -> None:
         self.strict_by_default = strict_by_default
 
@@ -421,17 +425,16 @@ class PlainDatatypeConverter(Converter):
         datatype = _unwrap_annotated(ctx.datatype)
         if not isinstance(datatype, ClassTypeHint):
             raise NotImplementedError
-        if datatype.type not in {k[0] for k in self._strict_adapters}:
+        if datatype.type not in {k[1] for k in self._strict_adapters}:
             raise NotImplementedError
 
         source_type = type(ctx.value)
         target_type = datatype.type
-        strict = (
-            (ctx.get_setting(Strict) or Strict(self.strict_by_default))
-            if ctx.direction == Direction.DESERIALIZE
-            else Strict(True)
-        )
-        adapters = self._strict_adapters if strict.enabled else self._nonstrict_adapters
+        if ctx.direction == Direction.DESERIALIZE:
+            strict = ctx.get_setting(Strict) or Strict(self.strict_by_default)
+            adapters = self._strict_adapters if strict.enabled else self._nonstrict_adapters
+        else:
+            adapters = self._serialize_adapters
         adapter = adapters.get((source_type, target_type))
 
         if adapter is None:
-- 
2.43.0


From c20cc248371d55c1f63fa5871fc495698102ef13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 07/50] fix: write nested unions under their nesting key

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 6071e90..62e6752 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -849,7 +849,7 @@ class UnionConverter(Converter):
             self._check_style_compatibility(ctx, style, result)
             # Bring the serialized value into shape.
             if style == Union.NESTED:
-                result = {discriminator_key: member_name, member_name: result}
+                result = {discriminator_key: member_name, nesting_key: result}
             elif style == Union.FLAT:
                 assert isinstance(result, t.MutableMapping), type(result)
                 result[discriminator_key] = member_name
-- 
2.43.0


From 6bdd89750d7e13bf8d20235fbc127b3de3a98028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 08/50] fix: report unknown union members as ConversionError

---
 databind/src/databind/json/converters.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 62e6752..3e9914b 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -757,7 +757,8 @@ class UnionConverter(Converter):
                     self, ctx, f"expected exactly one key to act as the discriminator, got {len(value)} key(s)"
                 )
             member_name = next(iter(value))
-            assert isinstance(member_name, str)
+            if not isinstance(member_name, str):
+                raise ConversionError.expected(self, ctx.spawn(member_name, str, None), str)
         else:
             raise ConversionError(self, ctx, f"unsupported Union.style: {style!r}")
 
@@ -807,16 +808,18 @@ class UnionConverter(Converter):
         is_deserialize = ctx.direction == Direction.DESERIALIZE
 
         if is_deserialize:
-            # Identify the member type to deserialize to.
+            # Identify the member to deserialize to.
             if not isinstance(ctx.value, t.Mapping):
                 raise ConversionError.expected(self, ctx, t.Mapping)
             member_name = self._get_deserialize_member_name(ctx, ctx.value, style, discriminator_key)
-            member_type = union.members.get_type_by_id(member_name)
 
-        else:
-            # Identify the member type based on the Python value type.
-            member_name = union.members.get_type_id(type(ctx.value))
+        try:
+            if not is_deserialize:
+                # Identify the member type based on the Python value type.
+                member_name = union.members.get_type_id(type(ctx.value))
             member_type = union.members.get_type_by_id(member_name)
+        except ValueError as exc:
+            raise ConversionError(self, ctx, str(exc)) from exc
 
         nesting_key = union.nesting_key or member_name
         type_hint = TypeHint(member_type) if not isinstance(member_type, TypeHint) else member_type
-- 
2.43.0


From 22516549ec62829a9c423267617ae31ac1ba159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 09/50] fix: do not add the discriminator to a mapping owned by
 the serialized value

---
 databind/src/databind/json/converters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 3e9914b..d5db84e 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -855,7 +855,8 @@ class UnionConverter(Converter):
                 result = {discriminator_key: member_name, nesting_key: result}
             elif style == Union.FLAT:
                 assert isinstance(result, t.MutableMapping), type(result)
-                result[discriminator_key] = member_name
+                # The mapping may be owned by the value (e.g. if returned by a custom converter), so do not modify it.
+                result = {**result, discriminator_key: member_name}
             elif style == Union.KEYED:
                 result = {member_name: result}
             elif style == Union.BEST_MATCH:
-- 
2.43.0


From 28e210ca3e1642c63a4b45974002d92dc38ed849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 10/50] fix: support Literal type hints wrapped in Annotated

---
 databind/src/databind/json/converters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index d5db84e..e0e930a 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -874,14 +874,15 @@ class LiteralConverter(Converter):
     or #None."""
 
     def convert(self, ctx: Context) -> t.Any:
-        if not isinstance(ctx.datatype, LiteralTypeHint):
+        datatype = _unwrap_annotated(ctx.datatype)
+        if not isinstance(datatype, LiteralTypeHint):
             raise NotImplementedError
 
-        if ctx.value not in ctx.datatype.values:
+        if ctx.value not in datatype.values:
             raise ConversionError(
                 self,
                 ctx,
-                f"literal value mismatch: got {ctx.value!r}, expected {'|'.join(map(repr, ctx.datatype.values))}",
+                f"literal value mismatch: got {ctx.value!r}, expected {'|'.join(map(repr, datatype.values))}",
             )
 
         return ctx.value
-- 
2.43.0


From 7709df68294248ad60550c3547f9596ed42378bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 11/50] fix: support plain unions wrapped in Annotated without
 a Union setting

---
 databind/src/databind/json/converters.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index e0e930a..1f882c5 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -770,9 +770,13 @@ class UnionConverter(Converter):
             raise ConversionError(self, ctx, f"The Union.{style.upper()} style is not supported for plain member types")
 
     def convert(self, ctx: Context) -> t.Any:
-        datatype = ctx.datatype
-        union: t.Optional[Union]
-        if isinstance(datatype, UnionTypeHint):
+        datatype = _unwrap_annotated(ctx.datatype)
+        union: t.Optional[Union] = None
+        if isinstance(ctx.datatype, (AnnotatedTypeHint, ClassTypeHint)):
+            union = ctx.get_setting(Union)
+        if union is None:
+            if not isinstance(datatype, UnionTypeHint):
+                raise NotImplementedError
             if datatype.has_none_type():
                 raise NotImplementedError("unable to handle Union type with None in it")
             if not all(isinstance(a, ClassTypeHint) for a in datatype):
@@ -781,12 +785,6 @@ class UnionConverter(Converter):
             if len(members) != len(datatype):
                 raise NotImplementedError(f"members of plain Union cannot have overlapping type names: {datatype}")
             union = Union(members, Union.BEST_MATCH)
-        elif isinstance(datatype, (AnnotatedTypeHint, ClassTypeHint)):
-            union = ctx.get_setting(Union)
-            if union is None:
-                raise NotImplementedError
-        else:
-            raise NotImplementedError
 
         style = union.style
         if style == Union.BEST_MATCH:
-- 
2.43.0


From 91e85725132a99f46b294bb6bf39edc6dbf2443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 12/50] fix: delegate to class methods for type hints wrapped
 in Annotated

---
 databind/src/databind/core/converter.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/core/converter.py b/databind/src/databind/core/converter.py
index 3696ab9..b98e757 100644
--- a/databind/src/databind/core/converter.py
+++ b/databind/src/databind/core/converter.py
@@ -3,7 +3,7 @@ import logging
 import typing as t
 from textwrap import indent
 
-from typeapi import ClassTypeHint, type_repr
+from typeapi import AnnotatedTypeHint, ClassTypeHint, type_repr
 
 from databind.core.utils import exception_safe_str
 
@@ -166,17 +166,19 @@ class DelegateToClassmethodConverter(Converter):
         self._deserialize = deserialize
 
     def serialize(self, ctx: "Context") -> t.Any:
-        if self._serialize is None or not isinstance(ctx.datatype, ClassTypeHint):
+        datatype = ctx.datatype[0] if isinstance(ctx.datatype, AnnotatedTypeHint) else ctx.datatype
+        if self._serialize is None or not isinstance(datatype, ClassTypeHint):
             raise NotImplementedError
-        if not isinstance(ctx.value, ctx.datatype.type):
-            raise ConversionError.expected(self, ctx, ctx.datatype.type)
-        method: t.Callable[[t.Any], t.Any] = getattr(ctx.datatype.type, self._serialize)
+        if not isinstance(ctx.value, datatype.type):
+            raise ConversionError.expected(self, ctx, datatype.type)
+        method: t.Callable[[t.Any], t.Any] = getattr(datatype.type, self._serialize)
         return method(ctx.value)
 
     def deserialize(self, ctx: "Context") -> t.Any:
-        if self._deserialize is None or not isinstance(ctx.datatype, ClassTypeHint):
+        datatype = ctx.datatype[0] if isinstance(ctx.datatype, AnnotatedTypeHint) else ctx.datatype
+        if self._deserialize is None or not isinstance(datatype, ClassTypeHint):
             raise NotImplementedError
         if self._serialized_type is not None and not isinstance(ctx.value, self._serialized_type):
             raise ConversionError.expected(self, ctx, self._serialized_type)
-        method: t.Callable[[t.Any], t.Any] = getattr(ctx.datatype.type, self._deserialize)
+        method: t.Callable[[t.Any], t.Any] = getattr(datatype.type, self._deserialize)
         return method(ctx.value)
-- 
2.43.0


From 6d91179af83481e73d6701ee78960c6cc7a8c5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 13/50] fix: decorating a subclass with a setting no longer
 changes its base class

---
 databind/src/databind/core/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 5777529..09bbe46 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -176,7 +176,7 @@ class ClassDecoratorSetting(Setting):
             raise RuntimeError("cannot decorate multiple types with the same setting instance")
 
         self.bound_to = type_
-        settings = getattr(type_, "__databind_settings__", None)
+        settings = vars(type_).get("__databind_settings__")
         if settings is None:
             settings = []
             setattr(type_, "__databind_settings__", settings)
-- 
2.43.0


From 4dd712c9febe04826e266e12359a09e2010a4352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 14/50] fix: do not swallow errors raised by settings providers

---
 databind/src/databind/core/settings.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 09bbe46..c2c6015 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -188,10 +188,7 @@ class ClassDecoratorSetting(Setting):
 def get_highest_setting(settings: t.Iterable[T_Setting]) -> "T_Setting | None":
     """Return the first, highest setting of *settings*."""
 
-    try:
-        return max(settings, key=lambda s: s.priority)
-    except ValueError:
-        return None
+    return max(settings, key=lambda s: s.priority, default=None)
 
 
 def get_class_settings(
-- 
2.43.0


From 53dd82ab5a6eddf2cf289d85693e56297a2a5fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 15/50] fix: leave typed dicts to the SchemaConverter

---
 databind/src/databind/json/converters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 1f882c5..c52160f 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -12,6 +12,7 @@ from typeapi import (
     TypeHint,
     UnionTypeHint,
     get_annotations,
+    is_typed_dict,
     type_repr,
 )
 
@@ -330,7 +331,11 @@ class MappingConverter(Converter):
         datatype = _unwrap_annotated(ctx.datatype)
 
         # Find the key and value types of the mapping.
-        if not isinstance(datatype, ClassTypeHint) or not issubclass(datatype.type, t.Mapping):
+        if (
+            not isinstance(datatype, ClassTypeHint)
+            or not issubclass(datatype.type, t.Mapping)
+            or is_typed_dict(datatype.type)
+        ):
             raise NotImplementedError
         candidates = set()
         for current in datatype.recurse_bases():
-- 
2.43.0


From 55b5e4962367091995e9d182cd72a6e4c43751de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 16/50] fix: keep typed dict fields in definition order

---
 databind/src/databind/core/schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index dafd295..8077ebd 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -300,8 +300,8 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
 
     annotations = get_annotations(t.cast(type, typed_dict))
     fields: t.Dict[str, Field] = {}
-    for key in typed_dict.__required_keys__ | typed_dict.__optional_keys__:
-        field_hint = TypeHint(annotations[key]).evaluate(eval_context)
+    for key, annotation in annotations.items():
+        field_hint = TypeHint(annotation).evaluate(eval_context)
 
         has_default = hasattr(typed_dict, key)
         required = _is_required(field_hint, not has_default)
-- 
2.43.0


From d67fc9e233ae18fb4a6c7a21f767aca7ff6e9ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 17/50] fix: do not mistake dict methods for typed dict
 defaults

---
 databind/src/databind/core/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 8077ebd..2ac8c71 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -303,7 +303,7 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
     for key, annotation in annotations.items():
         field_hint = TypeHint(annotation).evaluate(eval_context)
 
-        has_default = hasattr(typed_dict, key)
+        has_default = key in vars(typed_dict)
         required = _is_required(field_hint, not has_default)
         fields[key] = Field(
             datatype=field_hint,
-- 
2.43.0


From 562cef0b180a334006a49d6827d4c5c9e3ea6290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 18/50] fix: determine required typed dict keys individually if
 total and non-total dicts are mixed

---
 databind/src/databind/core/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 2ac8c71..1aa5740 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -307,7 +307,7 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
         required = _is_required(field_hint, not has_default)
         fields[key] = Field(
             datatype=field_hint,
-            required=required and typed_dict.__total__,
+            required=required and key in typed_dict.__required_keys__,
             default=getattr(typed_dict, key) if has_default else None if not required else NotSet.Value,
             flattened=_is_flat(field_hint, False),
         )
-- 
2.43.0


From de9aab6e54b573f4e6dc438de8476de77865b067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 19/50] fix: reject non-mappings when serializing typed dicts

---
 databind/src/databind/json/converters.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index c52160f..f2920f8 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -491,10 +491,9 @@ class SchemaConverter(Converter):
             is_instance = isinstance(ctx.value, schema.type)
         except TypeError:
             # The type may not support isinstance() checks (e.g. typing.TypedDict).
-            pass
-        else:
-            if not is_instance:
-                raise ConversionError.expected(self, ctx, schema.type)
+            is_instance = isinstance(ctx.value, t.Mapping)
+        if not is_instance:
+            raise ConversionError.expected(self, ctx, schema.type)
 
         serialize_defaults = (ctx.get_setting(SerializeDefaults) or SerializeDefaults(self.serialize_defaults)).enabled
         result = self.json_mapping_type()
-- 
2.43.0


From a32d72deff7abb867c66b149aa9fcb258c41c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 20/50] fix: respect missing keys when serializing typed dicts

---
 databind/src/databind/json/converters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index f2920f8..a8e134f 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -500,7 +500,7 @@ class SchemaConverter(Converter):
 
         def _get_field_value(field_name: str, field: Field) -> t.Any:
             if isinstance(ctx.value, t.Mapping):
-                return ctx.value[field_name]  # TODO (@NiklasRosenstein): Respect non-required fields
+                return ctx.value[field_name]
             else:
                 return getattr(ctx.value, field_name)
 
@@ -508,6 +508,10 @@ class SchemaConverter(Converter):
         remainder_values: t.Optional[t.Mapping[str, t.Any]] = None
 
         for field_name, field in schema.fields.items():
+            if isinstance(ctx.value, t.Mapping) and field_name not in ctx.value:
+                if field.required:
+                    raise ConversionError(self, ctx, f"missing required field: {field_name!r}")
+                continue
             field_ctx = ctx.spawn(_get_field_value(field_name, field), field.datatype, field_name)
             remainder = field_ctx.get_setting(Remainder)
             if remainder and remainder.enabled:
-- 
2.43.0


From a7fb20e8ae281686b439975eec915e053d746beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:23 +0000
Subject: [PATCH 21/50] fix: allow omitting a remainder field that has its
 default value

---
 databind/src/databind/json/converters.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index a8e134f..035795d 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -547,8 +547,7 @@ class SchemaConverter(Converter):
                     else:
                         result[alias] = value
 
-        if remainder_field:
-            assert remainder_values is not None
+        if remainder_values is not None:
             duplicate_keys = result.keys() & remainder_values.keys()
             if duplicate_keys:
                 raise ConversionError(
-- 
2.43.0


From 5b613df10fa6f76ed290da6815e495fdea844ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:25 +0000
Subject: [PATCH 22/50] fix: report colliding keys of serialized fields as
 ConversionError

---
 databind/src/databind/json/converters.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 035795d..d9ac5e4 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -531,7 +531,14 @@ class SchemaConverter(Converter):
                         f"field {field_name!r} is flattened but its serialized form is not "
                         f"a mapping (got {type(value).__name__!r})",
                     )
-                assert result.keys().isdisjoint(value.keys()), result.keys() & value.keys()
+                duplicate_keys = result.keys() & value.keys()
+                if duplicate_keys:
+                    raise ConversionError(
+                        self,
+                        ctx,
+                        f"keys in flattened field {field_name!r} collide with other fields in the schema: "
+                        f"{duplicate_keys}",
+                    )
                 result.update(value)
             else:
                 if serialize_defaults or not field.has_default() or field_ctx.value != field.get_default():
@@ -544,6 +551,10 @@ class SchemaConverter(Converter):
                                 f"cannot expand remainder field {field_name!r} of type {type(value).__name__}",
                             )
                         remainder_values = value
+                    elif alias in result:
+                        raise ConversionError(
+                            self, ctx, f"key {alias!r} of field {field_name!r} collides with another field in the schema"
+                        )
                     else:
                         result[alias] = value
 
-- 
2.43.0


From 25722069417bfcd4f0cce83c1a1be498bb95329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 23/50] fix: keep the keys of a remainder field in payload
 order

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index d9ac5e4..b5250d8 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -629,7 +629,7 @@ class SchemaConverter(Converter):
 
         unused_keys = source.keys() - used_keys
         if remainder_field:
-            remainders = {k: ctx.value[k] for k in unused_keys}
+            remainders = {k: v for k, v in source.items() if k not in used_keys}
             result[remainder_field[0]] = ctx.spawn(
                 remainders, remainder_field[1].datatype, remainder_field[0]
             ).convert()
-- 
2.43.0


From 7307e23423e168dbcd92fabb476a687d5e501137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:44 +0000
Subject: [PATCH 24/50] fix: hand the remaining keys to a remainder field
 inside a flattened field

---
 databind/src/databind/json/converters.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index b5250d8..219ada8 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -575,11 +575,12 @@ class SchemaConverter(Converter):
         source = ctx.value
         used_keys = set()
         remainder_field: t.Optional[t.Tuple[str, Field]] = None
+        remainder_container: t.Optional[t.Dict[str, t.Any]] = None
 
         def _extract_field(
             result: t.Dict[str, t.Any], field_name: str, field: Field, keep_aliased: bool
         ) -> t.Dict[str, t.Any]:
-            nonlocal remainder_field
+            nonlocal remainder_field, remainder_container
 
             field_ctx = ctx.spawn(None, field.datatype, field_name)
             remainder = field_ctx.get_setting(Remainder)
@@ -589,6 +590,7 @@ class SchemaConverter(Converter):
                         self, ctx, f"encountered at least two remainder fields ({remainder_field[0]!r}, {field_name!r})"
                     )
                 remainder_field = (field_name, field)
+                remainder_container = result if keep_aliased else None
                 return result
 
             aliases = self._get_alias_setting(field_ctx, field_name).aliases
@@ -610,11 +612,14 @@ class SchemaConverter(Converter):
             return result
 
         result = {}
+        flattened: t.Dict[str, t.Dict[str, t.Any]] = {}
         expanded = get_fields_expanded(schema)
         for field_name, field in schema.fields.items():
             if field.flattened:
+                # Converted further below, as it may contain the remainder field.
                 assert field_name in expanded, field_name
-                value = ctx.spawn(_extract_fields(expanded[field_name]), field.datatype, field_name).convert()
+                flattened[field_name] = _extract_fields(expanded[field_name])
+                continue
             else:
                 container = _extract_field({}, field_name, field, False)
                 if not container:
@@ -630,13 +635,19 @@ class SchemaConverter(Converter):
         unused_keys = source.keys() - used_keys
         if remainder_field:
             remainders = {k: v for k, v in source.items() if k not in used_keys}
-            result[remainder_field[0]] = ctx.spawn(
-                remainders, remainder_field[1].datatype, remainder_field[0]
-            ).convert()
+            if remainder_container is not None:
+                remainder_container.update(remainders)
+            else:
+                result[remainder_field[0]] = ctx.spawn(
+                    remainders, remainder_field[1].datatype, remainder_field[0]
+                ).convert()
         elif unused_keys:
             extra_keys = ctx.get_setting(ExtraKeys) or ExtraKeys(False)
             extra_keys.inform(self, ctx, unused_keys)
 
+        for field_name, container in flattened.items():
+            result[field_name] = ctx.spawn(container, schema.fields[field_name].datatype, field_name).convert()
+
         return schema.constructor(**result)
 
     def deserialize(self, ctx: Context) -> t.Any:
-- 
2.43.0


From c22941ea720df2bae611b528bd1ef30be1dbbbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 25/50] fix: respect default values of NamedTuple fields

---
 databind/src/databind/json/converters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 219ada8..5f8a388 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -36,6 +36,7 @@ from databind.core import (
     get_annotation_setting,
     get_fields_expanded,
 )
+from databind.core.utils import NotSet
 
 T = t.TypeVar("T")
 
@@ -96,12 +97,15 @@ class CollectionConverter(Converter):
             and issubclass(datatype.type, tuple)
             and getattr(datatype.type, "__annotations__", None)
         ):
+            defaults = getattr(datatype.type, "_field_defaults", {})
             schema = Schema(
                 fields={
                     name: Field(
                         # We need to evaluate the type hint to remove forward references. The source is needed to
                         # understand the context in which forward references must be evaluated.
                         datatype=TypeHint(type_, source=datatype.type).evaluate(),
+                        required=name not in defaults,
+                        default=defaults.get(name, NotSet.Value),
                     )
                     for name, type_ in getattr(datatype.type, "__annotations__").items()
                 },
-- 
2.43.0


From 8a4ed410a38af74ba80ec48c6e85378cbc69c712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 26/50] fix: chained union members list whole type IDs instead
 of their characters

---
 databind/src/databind/core/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 95bb90d..0a19718 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -245,4 +245,4 @@ class ChainUnionMembers(UnionMembers):
                 except NotImplementedError:
                     pass
 
-        return Stream(_gen()).concat().distinct().collect()
+        return Stream(_gen()).distinct().collect()
-- 
2.43.0


From 1bbefc9cacab2016a15c4069af1b0cd4e06c581e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 27/50] fix: replacing a deferred union member takes effect
 after it was evaluated

---
 databind/src/databind/core/union.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 0a19718..a74465d 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -88,7 +88,7 @@ class StaticUnionMembers(UnionMembers):
     members: _MembersDictType = dataclasses.field(default_factory=dict)
 
     def __post_init__(self) -> None:
-        self._eval_cache: t.Dict[str, StaticUnionMembers._TypeType] = {}
+        self._eval_cache: t.Dict[types.FunctionType, StaticUnionMembers._TypeType] = {}
 
     def get_type_id(self, type_: t.Any) -> str:
         for type_id in self.members:
@@ -102,18 +102,15 @@ class StaticUnionMembers(UnionMembers):
         raise ValueError(f"type {type_} is not a member of {self}")
 
     def get_type_by_id(self, type_id: str) -> t.Any:
-        try:
-            return self._eval_cache[type_id]
-        except KeyError:
-            pass
-
         try:
             member = self.members[type_id]
         except KeyError:
             raise ValueError(f"{type_id!r} is not a type ID of {self}")
 
         if isinstance(member, types.FunctionType):
-            member = self._eval_cache[type_id] = member()
+            if member not in self._eval_cache:
+                self._eval_cache[member] = member()
+            member = self._eval_cache[member]
 
         return member
 
-- 
2.43.0


From 1e4c2d37c582b48397fd4960aec7449090b1c2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:45 +0000
Subject: [PATCH 28/50] fix: report unresolvable import union members as
 ValueError

---
 databind/src/databind/core/union.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index a74465d..00c4082 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -178,7 +178,12 @@ class ImportUnionMembers(UnionMembers):
         parts = type_id.split(".")
         offset = 1
         module_name = parts[0]
-        module = importlib.import_module(module_name)
+        try:
+            module = importlib.import_module(module_name)
+        except ModuleNotFoundError as exc:
+            if exc.name == module_name:
+                raise ValueError(f"{type_id!r} does not point to a type (no module named {module_name!r})") from exc
+            raise
 
         # Import as many modules as we can.
         for offset, part in enumerate(parts[offset:], offset):
@@ -186,15 +191,18 @@ class ImportUnionMembers(UnionMembers):
             try:
                 module = importlib.import_module(sub_module_name)
                 module_name = sub_module_name
-            except ImportError as exc:
-                if sub_module_name in str(exc):
+            except ModuleNotFoundError as exc:
+                if exc.name == sub_module_name:
                     break
                 raise
 
         # Read the class.
         target = module
         for offset, part in enumerate(parts[offset:], offset):
-            target = getattr(target, part)
+            try:
+                target = getattr(target, part)
+            except AttributeError as exc:
+                raise ValueError(f"{type_id!r} does not point to a type ({exc})") from exc
 
         if not isinstance(target, type):  # type: ignore[unreachable]
             raise ValueError(f"{type_id!r} does not point to a type (got {type(target).__name__} instead)")
-- 
2.43.0


From ba44fe3347b6b8ffda7414fbb93ba4d80c5c6537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 29/50] fix: do not report a KeyError from loading an entry
 point as an unknown type ID

---
 databind/src/databind/core/union.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 00c4082..ef161c9 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -150,9 +150,10 @@ class EntrypointUnionMembers(UnionMembers):
 
     def get_type_by_id(self, type_id: str) -> t.Any:
         try:
-            return self._entrypoints[type_id].load()
+            entrypoint = self._entrypoints[type_id]
         except KeyError:
             raise ValueError(f"{type_id!r} is not a valid type ID for {self}")
+        return entrypoint.load()
 
     def get_type_ids(self) -> t.List[str]:
         return list(self._entrypoints.keys())
-- 
2.43.0


From 2381bc301e16a52d2ddb8c335b25ab44fa77ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 30/50] fix: format the context trace for keys of any type

---
 databind/src/databind/core/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/context.py b/databind/src/databind/core/context.py
index 7248791..fd238f6 100644
--- a/databind/src/databind/core/context.py
+++ b/databind/src/databind/core/context.py
@@ -150,7 +150,7 @@ def format_context_trace(ctx: Context) -> str:
         elif ctx.key is None:
             key = "^"
         else:
-            raise TypeError(f"encountered unexpected type in Context.key: {ctx.key.__class__.__name__!r}")
+            key = f"[{ctx.key!r}]"
 
         line = f"  {key}: {ctx.datatype}"
         if ctx.location.line or ctx.location.column:
-- 
2.43.0


From 76dd545a170eb8c7960e676f0b523a9c21f10e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 31/50] fix: deserialize subclasses with StringifyConverter as
 the declared type

---
 databind/src/databind/json/converters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 5f8a388..9cd0978 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -676,7 +676,7 @@ class StringifyConverter(Converter):
     ) -> None:
         assert isinstance(type_, type), type_
         self.type_ = type_
-        self.parser: t.Callable[[str], T] = parser or type_
+        self.parser: t.Optional[t.Callable[[str], T]] = parser
         self.formatter = formatter
         self.name = name
 
@@ -698,7 +698,7 @@ class StringifyConverter(Converter):
             if not isinstance(ctx.value, str):
                 raise ConversionError.expected(self, ctx, str)
             try:
-                return self.parser(ctx.value)
+                return (self.parser or datatype.type)(ctx.value)
             except (TypeError, ValueError) as exc:
                 raise ConversionError(self, ctx, str(exc))
 
-- 
2.43.0


From ccfd8bfdbbe7f40b13a9ed2ed84684a60c93535d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 32/50] fix: report dates that cannot be formatted as
 ConversionError

---
 databind/src/databind/json/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 9cd0978..1bcbab8 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -223,7 +223,10 @@ class DatetimeConverter(Converter):
         else:
             if not isinstance(ctx.value, date_type):
                 raise ConversionError.expected(self, ctx, date_type, type(ctx.value))
-            return datefmt.format(ctx.value)  # type: ignore[type-var]
+            try:
+                return datefmt.format(ctx.value)  # type: ignore[type-var]
+            except ValueError as exc:
+                raise ConversionError(self, ctx, str(exc)) from exc
 
 
 class DecimalConverter(Converter):
-- 
2.43.0


From 7614faa0c6313fef96ff6830b52263c50e1bd09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 33/50] fix: reject datetimes when serializing dates

---
 databind/src/databind/json/converters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 1bcbab8..d3216db 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -221,7 +221,9 @@ class DatetimeConverter(Converter):
             raise ConversionError.expected(self, ctx, date_type, type(ctx.value))
 
         else:
-            if not isinstance(ctx.value, date_type):
+            # Note that a datetime is an instance of date, but its serialized form would not be that of a date.
+            is_other_type = date_type == datetime.date and isinstance(ctx.value, datetime.datetime)
+            if not isinstance(ctx.value, date_type) or is_other_type:
                 raise ConversionError.expected(self, ctx, date_type, type(ctx.value))
             try:
                 return datefmt.format(ctx.value)  # type: ignore[type-var]
-- 
2.43.0


From ec034325854c81bf0e779c954d370b6783553ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 34/50] fix: format subclasses of date, time and datetime

---
 databind/src/databind/core/settings.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index c2c6015..e0a9335 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -628,11 +628,12 @@ class DateFormat(Setting):
         from nr.date import date_format, datetime_format, time_format
 
         format_t: t.Type[DateFormat.Formatter]
-        format_t, method_name = {  # type: ignore
-            datetime.date: (date_format, "format_date"),
-            datetime.time: (time_format, "format_time"),
-            datetime.datetime: (datetime_format, "format_datetime"),
-        }[type(dt)]
+        if isinstance(dt, datetime.datetime):  # Must come first, because it is a subclass of datetime.date
+            format_t, method_name = datetime_format, "format_datetime"
+        elif isinstance(dt, datetime.date):
+            format_t, method_name = date_format, "format_date"
+        else:
+            format_t, method_name = time_format, "format_time"
         for fmt in self.__iter_formats(format_t):
             try:
                 return t.cast(str, getattr(fmt, method_name)(dt))
-- 
2.43.0


From 5ad989c8b7fb1ebc7180b17b43d219f6fd613840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 35/50] fix: expand flattened fields with the configured schema
 conversion

---
 databind/src/databind/core/schema.py     | 6 +++++-
 databind/src/databind/json/converters.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 1aa5740..1962d8f 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -391,7 +391,11 @@ def get_fields_expanded(
             field_schema = convert_to_schema(field.datatype)
             result[field_name] = {
                 **{k: v for k, v in field_schema.fields.items() if not v.flattened},
-                **{k: v for sf in get_fields_expanded(field_schema).values() for k, v in sf.items()},
+                **{
+                    k: v
+                    for sf in get_fields_expanded(field_schema, convert_to_schema).values()
+                    for k, v in sf.items()
+                },
             }
             for sub_field_name in result[field_name]:
                 if sub_field_name in schema.fields and sub_field_name != field_name:
diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index d3216db..25d109d 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -622,7 +622,7 @@ class SchemaConverter(Converter):
 
         result = {}
         flattened: t.Dict[str, t.Dict[str, t.Any]] = {}
-        expanded = get_fields_expanded(schema)
+        expanded = get_fields_expanded(schema, self.convert_to_schema)
         for field_name, field in schema.fields.items():
             if field.flattened:
                 # Converted further below, as it may contain the remainder field.
-- 
2.43.0


From 6e0f0230a2b0e157383e2fc73597b4be94f6febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 36/50] fix: attribute dataclass fields to the most derived
 class in the MRO

---
 databind/src/databind/core/schema.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 1962d8f..c01acc1 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -181,15 +181,12 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
     # forward references in field annotations; we can't just use the target
     # dataclass if it was defined in a different module.
     field_origin: t.Dict[str, type] = {}
-    base_queue = [hint.type]
-    while base_queue:
-        base_type = base_queue.pop(0)
+    for base_type in hint.type.__mro__:
         if dataclasses.is_dataclass(base_type):
             annotations = get_annotations(base_type)
             for field in dataclasses.fields(base_type):
                 if field.name in annotations and field.name not in field_origin:
                     field_origin[field.name] = base_type
-        base_queue += base_type.__bases__
 
     # Retrieve the context in which type hints from each field origin type need to be
     # evaluated.
-- 
2.43.0


From da7c7399c8472501933469edd9c4be37150b6f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 37/50] fix: compare dataclass defaults by identity, they may
 override equality

---
 databind/src/databind/core/schema.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index c01acc1..59cb2e9 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -224,9 +224,9 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
                 #       but we also cannot ignore it because of warn_unused_ignores.
                 _field_default_factory = getattr(field, "default_factory")
 
-                default = NotSet.Value if field.default == MISSING else field.default
-                default_factory = NotSet.Value if _field_default_factory == MISSING else _field_default_factory
-                has_default = default != NotSet.Value or default_factory != NotSet.Value
+                default = NotSet.Value if field.default is MISSING else field.default
+                default_factory = NotSet.Value if _field_default_factory is MISSING else _field_default_factory
+                has_default = default is not NotSet.Value or default_factory is not NotSet.Value
                 required = _is_required(field_hint, not has_default)
 
                 fields[field.name] = Field(
-- 
2.43.0


From 58b6eba53b46e9d973543d5cf93a28f59a676a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 38/50] fix: field() does not modify the metadata passed to it

---
 databind/src/databind/core/dataclasses.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index ef61477..61028d6 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -125,7 +125,5 @@ def field(*, annotations=None, metadata=None, **kwargs):
     """
 
     if annotations:
-        if metadata is None:
-            metadata = {}
-        metadata[ANNOTATIONS_METADATA_KEY] = annotations
+        metadata = {**(metadata or {}), ANNOTATIONS_METADATA_KEY: annotations}
     return dataclasses.field(**kwargs, metadata=metadata)
-- 
2.43.0


From 06a1736bb6feddf29500881bc942ba22614ab765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 39/50] fix: support ClassVar, InitVar and init=False fields in
 the dataclass extension

---
 databind/src/databind/core/dataclasses.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 61028d6..de51293 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -81,13 +81,16 @@ def _process_class(cls, **kwargs):
     # Override the `__post_init__` method that is called by the dataclass `__init__`.
     orig_postinit = getattr(cls, "__post_init__", None)
 
-    def __post_init__(self):
-        # Ensure that no field has a "uninitialized" value.
-        for key in self.__dataclass_fields__.keys():
-            if getattr(self, key) == NotSet.Value:
+    def __post_init__(self, *args):
+        # Ensure that no field has a "uninitialized" value. The values of #InitVar fields are passed as arguments.
+        values = {f.name: getattr(self, f.name) for f in fields(self) if f.init}
+        initvars = [f.name for f in self.__dataclass_fields__.values() if f._field_type is dataclasses._FIELD_INITVAR]
+        values.update(zip(initvars, args))
+        for key, value in values.items():
+            if value is NotSet.Value:
                 raise TypeError(f"missing required argument {key!r}")
         if orig_postinit:
-            orig_postinit(self)
+            orig_postinit(self, *args)
 
     cls.__post_init__ = __post_init__
 
-- 
2.43.0


From 1df083580b97c9b449999e2fd83238b9f72a7e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 40/50] fix: keep the slots of fields without default in the
 dataclass extension

---
 databind/src/databind/core/dataclasses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index de51293..424aeff 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -100,7 +100,7 @@ def _process_class(cls, **kwargs):
     # After setting #Field.default for non-default fields, the default will be propagated
     # on the class level, so we delete that again from the class.
     for key in no_default_fields:
-        if key in no_default_fields:
+        if vars(cls).get(key) is NotSet.Value:
             delattr(cls, key)
 
     return cls
-- 
2.43.0


From 683a26b5b360287fb9eefc383c533d35686da4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 41/50] fix: redefining a field in a subclass no longer changes
 the field of the base class

---
 databind/src/databind/core/dataclasses.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 424aeff..1ef5883 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -56,18 +56,14 @@ def _field_has_default(field: Field) -> bool:
 def _process_class(cls, **kwargs):
     # Collect a list of the fields that have no default values but follow after a default argument.
     no_default_fields: t.List[str] = []
-    existing_fields = getattr(cls, "__dataclass_fields__", {})  # For subclasses of dataclasses
-    annotations = getattr(cls, "__annotations__", {})
-    if "__annotations__" not in cls.__dict__:
-        # Make sure that __annotations__ exists on the class itself.
-        cls.__annotations__ = annotations
+    annotations = cls.__dict__.get("__annotations__", {})
 
     # Make sure each annotated field actually has a #Field. For fields without
     # defaults, we will set #Field.default to #NotSet.Value so we can later
     # check if the field was set in __post_init__().
     for key in annotations.keys():
         if not hasattr(cls, key):
-            f = existing_fields.get(key, field())
+            f = field()
             setattr(cls, key, f)
         else:
             f = getattr(cls, key)
-- 
2.43.0


From 3f8e69641596611913e5b5cea1cda1fc987e01dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 42/50] fix: compare field defaults by identity in the
 dataclass extension

---
 databind/src/databind/core/dataclasses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 1ef5883..c07897f 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -50,7 +50,7 @@ ANNOTATIONS_METADATA_KEY = "databind.core.annotations"
 
 
 def _field_has_default(field: Field) -> bool:
-    return any(x != MISSING for x in (field.default, field.default_factory))  # type: ignore
+    return any(x is not MISSING for x in (field.default, field.default_factory))  # type: ignore
 
 
 def _process_class(cls, **kwargs):
-- 
2.43.0


From be59d7350250594710c8cdbeba03d7702a22dff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 43/50] fix: do not accept a bool for an IntEnum

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 25d109d..88aaedb 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -312,7 +312,7 @@ class EnumConverter(Converter):
 
         else:
             if issubclass(enum_type, enum.IntEnum):
-                if not isinstance(value, int):
+                if not isinstance(value, int) or isinstance(value, bool):
                     raise ConversionError.expected(self, ctx, int, type(value))
                 try:
                     return enum_type(value)
-- 
2.43.0


From 1e04860d7322f628f4cb5421748a5bc4e81bc488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 44/50] fix: report mapping keys that are converted to an
 unhashable value as ConversionError

---
 databind/src/databind/json/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 88aaedb..c216749 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -364,7 +364,10 @@ class MappingConverter(Converter):
         for key, value in ctx.value.items():
             value = ctx.spawn(value, value_type, key).convert()
             key = ctx.spawn(key, key_type, f"Key({key!r})").convert()
-            result[key] = value
+            try:
+                result[key] = value
+            except TypeError as exc:
+                raise ConversionError(self, ctx, f"cannot use {type(key).__name__} as a key: {exc}") from exc
 
         if ctx.direction == Direction.DESERIALIZE and datatype.type != dict:
             # We assume that the runtime type is constructible from a plain dictionary.
-- 
2.43.0


From 121a25485530fe121d43bbfc598e600866f71acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:24 +0000
Subject: [PATCH 45/50] fix: report non-iterable values for collections as
 ConversionError

---
 databind/src/databind/json/converters.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index c216749..bc3ece9 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -149,22 +149,21 @@ class CollectionConverter(Converter):
             def _length_check() -> None:
                 pass
 
-        values: t.Iterable[t.Any] = (
-            ctx.spawn(val, item_type, idx).convert()
-            for idx, (val, item_type) in enumerate(zip(ctx.value, item_types_iterator))
-        )
+        def _convert_values() -> t.Iterator[t.Any]:
+            for idx, (val, item_type) in enumerate(zip(ctx.value, item_types_iterator)):
+                yield ctx.spawn(val, item_type, idx).convert()
 
         if ctx.direction == Direction.SERIALIZE:
             if not isinstance(ctx.value, python_type):
                 raise ConversionError.expected(self, ctx, python_type)
             _length_check()
-            return self.json_collection_type(values)  # type: ignore[call-arg]
+            return self.json_collection_type(_convert_values())  # type: ignore[call-arg]
 
         else:
             if not isinstance(ctx.value, t.Collection) or isinstance(ctx.value, self._FORBIDDEN_COLLECTIONS):
                 raise ConversionError.expected(self, ctx, t.Collection)
             _length_check()
-            values = list(values)
+            values = list(_convert_values())
             if python_type == list:
                 return values
             elif hasattr(python_type, "_fields"):  # For collections.namedtuple
-- 
2.43.0


From 1fc87d70de541b07bfbd0e926e65cd6cf2c742fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:36 +0000
Subject: [PATCH 46/50] fix: support Annotated members in plain unions

---
 databind/src/databind/json/converters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index bc3ece9..efc6761 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -819,9 +819,9 @@ class UnionConverter(Converter):
                 raise NotImplementedError
             if datatype.has_none_type():
                 raise NotImplementedError("unable to handle Union type with None in it")
-            if not all(isinstance(a, ClassTypeHint) for a in datatype):
+            if not all(isinstance(_unwrap_annotated(a), ClassTypeHint) for a in datatype):
                 raise NotImplementedError(f"members of plain Union must be concrete types: {datatype}")
-            members = {t.cast(ClassTypeHint, a).type.__name__: a for a in datatype}
+            members = {t.cast(ClassTypeHint, _unwrap_annotated(a)).type.__name__: a for a in datatype}
             if len(members) != len(datatype):
                 raise NotImplementedError(f"members of plain Union cannot have overlapping type names: {datatype}")
             union = Union(members, Union.BEST_MATCH)
-- 
2.43.0


From 1d2914258d863101fe1b9803068ec3cab4167ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 47/50] fix: use the given settings provider even if it is
 falsy

---
 databind/src/databind/core/mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/mapper.py b/databind/src/databind/core/mapper.py
index f9e909c..3d13e65 100644
--- a/databind/src/databind/core/mapper.py
+++ b/databind/src/databind/core/mapper.py
@@ -21,7 +21,7 @@ class ObjectMapper(t.Generic[T, U]):
 
         assert isinstance(settings, (type(None), Settings)), settings
         self.module = Module("ObjectMapper.module")
-        self.settings = settings or Settings()
+        self.settings = Settings() if settings is None else settings
 
     def copy(self) -> "ObjectMapper[T, U]":
         new = type(self)(self.settings.copy())
@@ -67,7 +67,7 @@ class ObjectMapper(t.Generic[T, U]):
             direction=direction,
             value=value,
             datatype=datatype,
-            settings=settings or self.settings,
+            settings=self.settings if settings is None else settings,
             key=Context.ROOT,
             location=location or Location.EMPTY,
             convert_func=self.module.convert,
-- 
2.43.0


From e512bd74cbc15ec56a5ab2204215d606f8482bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 48/50] fix: add_conditional() no longer fails to resolve an
 annotation

---
 databind/src/databind/core/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index e0a9335..17ef82f 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -70,7 +70,7 @@ class Settings(SettingsProvider):
     def add_conditional(self, predicate: t.Callable[["Context"], bool], setting: "Setting") -> None:
         """Adds a setting conditional on the given *predicate*."""
 
-        def _provider(context: Context) -> t.List[Setting]:
+        def _provider(context: "Context") -> t.List[Setting]:
             if predicate(context):
                 return [setting]
             return []
-- 
2.43.0


From 9bff6b58700819f2b9c221072edab2dc9d9ed3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 49/50] fix: an object that lacks the attribute of a field
 fails with ConversionError, not AttributeError

---
 databind/src/databind/json/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index efc6761..45c6bc6 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -513,7 +513,10 @@ class SchemaConverter(Converter):
             if isinstance(ctx.value, t.Mapping):
                 return ctx.value[field_name]
             else:
-                return getattr(ctx.value, field_name)
+                try:
+                    return getattr(ctx.value, field_name)
+                except AttributeError as exc:
+                    raise ConversionError(self, ctx, f"missing attribute for field: {field_name!r}") from exc
 
         remainder_field: t.Optional[t.Tuple[str, Field]] = None
         remainder_values: t.Optional[t.Mapping[str, t.Any]] = None
-- 
2.43.0


From b0bf70735f53d5312365ace4b661e4c3d643eaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 50/50] fix: a parent settings provider with a false truth
 value was ignored

---
 databind/src/databind/core/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 17ef82f..9e16808 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -121,7 +121,7 @@ class Settings(SettingsProvider):
             for provider in self.providers:
                 yield from provider(context)
             yield from self.global_settings
-            if self.parent:
+            if self.parent is not None:
                 setting = self.parent.get_setting(context, setting_type)
                 if setting is not None:
                     yield setting
-- 
2.43.0

