From c28c0e0454ab25a6d593a59b85215168f086a027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:34 +0000
Subject: [PATCH 01/79] fix: keep every attribute of a nullable union through
 its optional dict form

---
 recap/types.py | 67 +++++++++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 7773800..fdcf2a9 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -394,9 +394,12 @@ def from_dict(
         name = type_dict.pop("name", None)
         default = type_dict.pop("default", None)
         if type_dict["type"] != "union":
+            # Like name and default, doc describes the union
+            doc = type_dict.pop("doc", None)
             type_dict = {
                 "type": "union",
                 "types": ["null", type_dict],
+                "doc": doc,
             }
         if "null" not in type_dict["types"]:
             type_dict["types"] = ["null"] + type_dict["types"]
@@ -663,10 +666,16 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
     # Support "optional" sytnactic sugar.
     # Shorten {"type": "union", "types": ["null", ...], "default": ...}
     # to {"type": "union", "types": [...], "optional": True}
+    # Only do syntactic sugar if from_dict can restore the union: null must be
+    # the first type, and the union must have no other (non-standard) extra
+    # attributes.
     if (
         type_dict["type"] == "union"
-        and "null" in type_dict["types"]
+        and type_dict["types"][:1] == ["null"]
+        and "null" not in type_dict["types"][1:]
         and "default" in type_dict
+        and type_dict.keys()
+        <= {"type", "types", "alias", "logical", "default", "doc", "name"}
     ):
         # Pop off standard attributes that should be kept whether the type is kept
         # as a union or converted to a single nested type.
@@ -675,34 +684,36 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
         default = type_dict.pop("default")
         doc = type_dict.pop("doc", None)
         name = type_dict.pop("name", None)
-
-        # Only do syntactic sugar if the union is a union with no other
-        # (non-standard) extra attributes.
-        if len(type_dict) == 2:
-            type_dict["types"].remove("null")
-
-            # If the type was ["null", <some type>], use <some type> instead
-            # of a union of a single type. Don't do this if union is an alias or
-            # logical type, since we promoting the nested type would change what
-            # the alias/logical type means.
-            if len(type_dict["types"]) == 1 and alias is None and logical is None:
-                nested_type = type_dict["types"][0]
-                if isinstance(nested_type, str):
-                    nested_type = {"type": nested_type}
+        type_dict["types"].remove("null")
+
+        # If the type was ["null", <some type>], use <some type> instead
+        # of a union of a single type. Don't do this if union is an alias or
+        # logical type, since we promoting the nested type would change what
+        # the alias/logical type means. Don't do it if <some type> is a union or
+        # has attributes that belong to the union when "optional" is set, either.
+        if len(type_dict["types"]) == 1 and alias is None and logical is None:
+            nested_type = type_dict["types"][0]
+            if isinstance(nested_type, str):
+                nested_type = {"type": nested_type}
+            if (
+                isinstance(nested_type, dict)
+                and nested_type["type"] != "union"
+                and not nested_type.keys() & {"default", "doc", "name", "optional"}
+            ):
                 type_dict = nested_type
-            assert isinstance(type_dict, dict), "Expected type_dict to be a dict."
-            attributes = {
-                "alias": alias,
-                "default": default,
-                "doc": doc,
-                "logical": logical,
-                "name": name,
-                "optional": True,
-            }
-            # Filter None values
-            attributes = {k: v for k, v in attributes.items() if v is not None}
-            # Add attributes to the type_dict.
-            type_dict |= attributes
+        assert isinstance(type_dict, dict), "Expected type_dict to be a dict."
+        attributes = {
+            "alias": alias,
+            "default": default,
+            "doc": doc,
+            "logical": logical,
+            "name": name,
+            "optional": True,
+        }
+        # Filter None values
+        attributes = {k: v for k, v in attributes.items() if v is not None}
+        # Add attributes to the type_dict.
+        type_dict |= attributes
 
     # Shorten simple types {"type": "type"} to "type"
     if len(type_dict) == 1:
-- 
2.43.0


From 48bfdcfd5b327cfeaa5695d92dc5a33a1560a189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:39 +0000
Subject: [PATCH 02/79] fix: don't register nested aliases twice in alias_dict

---
 recap/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recap/types.py b/recap/types.py
index fdcf2a9..2ee9728 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -753,7 +753,9 @@ def alias_dict(
         return type_dict
 
     registry = registry or RecapTypeRegistry()
-    recap_type = from_dict(type_dict, registry)
+    # Use a throwaway registry so nested aliases aren't registered again when
+    # recursing on nested type_dicts.
+    recap_type = from_dict(type_dict, RecapTypeRegistry())
 
     # If there's a matching alias, replace the type_dict with it
     for alias, alias_type in registry._type_registry.items():
-- 
2.43.0


From c7a7f6235b492449e9649392c5082c5926ed2fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:44 +0000
Subject: [PATCH 03/79] fix: don't modify the original type in make_nullable

---
 recap/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 2ee9728..8235aaa 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -43,8 +43,9 @@ class RecapType:
         attrs.pop("type_", None)
         # Move doc to the union type
         doc = attrs.pop("doc", None)
-        # Unnest extra_attrs for copy or we end up with extra_attrs["extra_attrs"]
-        extra_attrs = attrs.pop("extra_attrs", {})
+        # Unnest extra_attrs for copy or we end up with extra_attrs["extra_attrs"].
+        # Copy so that popping attributes below doesn't remove them from `self`.
+        extra_attrs = attrs.pop("extra_attrs", {}).copy()
         union_attrs = {
             "default": extra_attrs.pop("default", None),
             "doc": doc,
@@ -57,6 +58,7 @@ class RecapType:
         if RecapTypeClass == UnionType:
             # Avoid UnionType(types=[NullType(), UnionType(...)])
             # Instead, just add NullType and default=None to the existing union
+            attrs["types"] = attrs["types"].copy()
             type_copy = UnionType(**attrs, **extra_attrs, **union_attrs)
         else:
             type_copy = UnionType([type_copy], **union_attrs)
-- 
2.43.0


From 98ec5d1d4165c31ca8154852ddf4c8c78e21fea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:50 +0000
Subject: [PATCH 04/79] fix: validate the types nested in a union

---
 recap/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recap/types.py b/recap/types.py
index 8235aaa..c73c022 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -291,6 +291,10 @@ class UnionType(RecapType):
     def __eq__(self, other):
         return super().__eq__(other) and self.types == other.types
 
+    def validate(self) -> None:
+        for type_ in self.types:
+            type_.validate()
+
     @property
     def is_optional(self) -> bool:
         """
-- 
2.43.0


From c727b3e3f43ef0807dbbea2907058e4c9a260083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:56 +0000
Subject: [PATCH 05/79] fix: clean dictionaries whose type is a list

---
 recap/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recap/types.py b/recap/types.py
index c73c022..f7aeef5 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -666,7 +666,8 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
     elif isinstance(type_name, list):
         type_dict = {
             "type": "union",
-            "types": [clean_dict(t) for t in type_dict["types"]],
+            **{k: v for k, v in type_dict.items() if k != "type"},
+            "types": [clean_dict(t) for t in type_name],
         }
 
     # Support "optional" sytnactic sugar.
-- 
2.43.0


From 799f600c345cc8954e0c61bd9059cb58e31c9de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:01 +0000
Subject: [PATCH 06/79] fix: don't drop lists nested in a type list

---
 recap/types.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index f7aeef5..944d4af 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -418,13 +418,10 @@ def from_dict(
 
     if isinstance(type_name, list):
         # If type is a list, handle as a union
-        union_types = []
-        for t in type_name:
-            if isinstance(t, dict):
-                union_types.append(from_dict(t, registry))
-            elif isinstance(t, str):
-                union_types.append(from_dict({"type": t}, registry))
-        recap_type = UnionType(union_types, **type_dict)
+        recap_type = UnionType(
+            [from_dict(t, registry) for t in type_name],
+            **type_dict,
+        )
     elif isinstance(type_name, str):
         match type_name:
             case "null":
-- 
2.43.0


From da1ac84f2ce218c3fdc17a63fd9ac5e3386d66c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:06 +0000
Subject: [PATCH 07/79] fix: apply doc, logical and bytes overrides when
 resolving an alias

---
 recap/types.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recap/types.py b/recap/types.py
index 944d4af..afd82ac 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -325,7 +325,13 @@ class ProxyType(RecapType):
         if self._resolved is None:
             self._resolved = copy.deepcopy(self.registry.from_alias(self.alias))
             # Apply attribute overrides
+            if self.doc is not None:
+                self._resolved.doc = self.doc
+            if self.logical is not None:
+                self._resolved.logical = self.logical
             for attr, value in self.extra_attrs.items():
+                if attr == "bytes" and hasattr(self._resolved, "bytes_"):
+                    attr = "bytes_"
                 if hasattr(self._resolved, attr):
                     setattr(self._resolved, attr, value)
                 else:
-- 
2.43.0


From feb71c3027d8ab7875d3d3d986797d95e351618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:10 +0000
Subject: [PATCH 08/79] fix: don't modify the dictionary given to alias_dict

---
 recap/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recap/types.py b/recap/types.py
index afd82ac..1ce7686 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -762,6 +762,8 @@ def alias_dict(
     if type_dict.get("alias") is not None:
         return type_dict
 
+    # Create a copy to avoid modifying the input dictionary
+    type_dict = type_dict.copy()
     registry = registry or RecapTypeRegistry()
     # Use a throwaway registry so nested aliases aren't registered again when
     # recursing on nested type_dicts.
-- 
2.43.0


From 5079c089f5518590b1193c1a4dbb558cac09a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:39 +0000
Subject: [PATCH 09/79] fix: convert strings and bytes without a length to Avro

---
 recap/converters/avro.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 3e0d0b1..376fce3 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -90,12 +90,14 @@ class AvroConverter:
                 avro_schema["type"] = "float"
             case FloatType(bits=int(bits)) if bits <= 64:
                 avro_schema["type"] = "double"
-            case StringType(bytes_=int(bytes_)) if bytes_ <= 9_223_372_036_854_775_807:
+            case StringType(bytes_=bytes_) if (
+                bytes_ is None or bytes_ <= 9_223_372_036_854_775_807
+            ):
                 avro_schema["type"] = "string"
             case BytesType(
-                bytes_=int(bytes_),
+                bytes_=bytes_,
                 variable=True,
-            ) if bytes_ <= 9_223_372_036_854_775_807:
+            ) if (bytes_ is None or bytes_ <= 9_223_372_036_854_775_807):
                 avro_schema["type"] = "bytes"
             case BytesType(
                 bytes_=int(bytes_),
-- 
2.43.0


From c5b0e2b3796bb0110a40c234d1b56c5a1ec6831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:44 +0000
Subject: [PATCH 10/79] fix: resolve built-in aliases of simple types in Avro

---
 recap/converters/avro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 376fce3..64a3423 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -140,7 +140,7 @@ class AvroConverter:
                     if isinstance(alias_type, dict):
                         avro_schema |= alias_type
                     else:
-                        avro_schema["type"] = alias
+                        avro_schema["type"] = alias_type
                 else:
                     # Fully qualified (non-builtin) aliases should just be referenced.
                     avro_schema["type"] = alias
-- 
2.43.0


From c02d694d2a3a455bdfef68b5f576bdaaee6fd5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:48 +0000
Subject: [PATCH 11/79] fix: allow aliased strings as map keys in Avro

---
 recap/converters/avro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 64a3423..bba1c90 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -125,9 +125,9 @@ class AvroConverter:
             case ListType(values=values):
                 avro_schema["type"] = "array"
                 avro_schema["items"] = self._from_recap(values)
-            case MapType(
-                keys=StringType(),
-                values=values,
+            case MapType(keys=keys, values=values) if isinstance(
+                keys.resolve() if isinstance(keys, ProxyType) else keys,
+                StringType,
             ):  # Avro only supports string keys
                 avro_schema["type"] = "map"
                 avro_schema["values"] = self._from_recap(values)
-- 
2.43.0


From 227fc482d12035a4ad8495c94b001e33a0e1b681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:54 +0000
Subject: [PATCH 12/79] fix: read Avro arrays and maps of unions

---
 recap/converters/avro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index bba1c90..6e2c952 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -253,14 +253,14 @@ class AvroConverter:
 
     def _parse(
         self,
-        avro_schema: dict | str,
+        avro_schema: dict | list | str,
         namespace: str | None,
     ) -> RecapType:
         return_type = None
         alias: str | None = None
         extra_attrs = {}
 
-        if isinstance(avro_schema, str):
+        if isinstance(avro_schema, (str, list)):
             avro_schema = {"type": avro_schema}
         if "doc" in avro_schema:
             extra_attrs["doc"] = avro_schema["doc"]
-- 
2.43.0


From 34eedce98d1ea7f380d74d1aa23f8fd0e673b738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:58 +0000
Subject: [PATCH 13/79] fix: keep the doc of Avro fields with a nested type
 definition

---
 recap/converters/avro.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 6e2c952..da48c5c 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -349,6 +349,7 @@ class AvroConverter:
 
                 # Don't pass extra_attrs into _parse since we don't want field
                 # "name" to overwrite "alias" for record/enum/fixed.
+                return_type.doc = extra_attrs.pop("doc", return_type.doc)
                 return_type.extra_attrs |= extra_attrs
 
                 # Short circuit so we don't re-register aliases for nested types
-- 
2.43.0


From ad95b0a4bf891921ff41c2d984b4e0c6c03c5ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:03 +0000
Subject: [PATCH 14/79] fix: only register Avro named types as aliases

---
 recap/converters/avro.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index da48c5c..e614002 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -273,11 +273,17 @@ class AvroConverter:
             if not namespace:
                 namespace = "_root"
             extra_attrs["name"] = name
-            alias = f"{namespace}.{name}"
+            # Only named types can be referenced. Other names are field names.
+            if avro_schema.get("type") in ("record", "enum", "fixed"):
+                alias = f"{namespace}.{name}"
         if "default" in avro_schema:
             extra_attrs["default"] = avro_schema["default"]
         if logical_type := avro_schema.get("logicalType"):
-            return self._parse_logical(logical_type, avro_schema, extra_attrs)
+            return_type = self._parse_logical(logical_type, avro_schema, extra_attrs)
+            if alias is not None:
+                return_type.alias = alias
+                self.registry.register_alias(return_type)
+            return return_type
 
         match avro_schema:
             case {"type": "null"}:
-- 
2.43.0


From 8024f43e4648ca9c595003975b49e983afb7796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:54 +0000
Subject: [PATCH 15/79] fix: don't replace a JSON schema definition with a
 reference to itself

---
 recap/converters/json_schema.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 24721ae..76c9d38 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -164,7 +164,12 @@ class JSONSchemaConverter:
 
         defs = {}
 
-        if (alias := recap_type.alias) and alias not in BUILTIN_ALIASES:
+        # A ProxyType references an alias. It doesn't define it.
+        if (
+            (alias := recap_type.alias)
+            and alias not in BUILTIN_ALIASES
+            and not isinstance(recap_type, ProxyType)
+        ):
             # Don't use $ref for concrete types, since we're defining them,
             # not referencing them.
             defs[alias] = self._convert_field(recap_type, False)
-- 
2.43.0


From a7f5c582c369be8a9cc14f3db616cffca22bc09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:59 +0000
Subject: [PATCH 16/79] fix: reference aliases of struct fields in JSON schemas

---
 recap/converters/json_schema.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 76c9d38..b59dd40 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -258,12 +258,13 @@ class JSONSchemaConverter:
                 type_dict |= {"type": "string", "format": "byte"}
             case NullType():
                 type_dict |= {"type": "null"}
-            case ProxyType(alias=alias) if alias in BUILTIN_ALIASES or len(
-                field.extra_attrs
-            ) > 0:
-                # If there are attribute overrides, we can't use refs. JSON
-                # schema doesn't support $def overrides. Also, if the alias
-                # is a built-in type, convert to standard types instead of $defs
+            case ProxyType(alias=alias) if alias in BUILTIN_ALIASES or (
+                field.extra_attrs.keys() - {"name"}
+            ):
+                # If there are attribute overrides (other than the field's name),
+                # we can't use refs. JSON schema doesn't support $def overrides.
+                # Also, if the alias is a built-in type, convert to standard types
+                # instead of $defs
                 return self._convert_field(field.resolve())
             case ProxyType(alias=str(alias)):
                 return type_dict | {"$ref": f"#/$defs/{alias}"}
-- 
2.43.0


From 9058092cb7791db1eb5187bb32ddb34d305c6eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:03 +0000
Subject: [PATCH 17/79] fix: keep the default and doc of optional fields in
 JSON schemas

---
 recap/converters/json_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index b59dd40..2d59bd8 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -221,7 +221,7 @@ class JSONSchemaConverter:
                 if field.is_optional:
                     non_null_types = [t for t in types if not isinstance(t, NullType)]
                     assert len(non_null_types) == 1
-                    type_dict |= self._convert_field(non_null_types[0])
+                    type_dict = self._convert_field(non_null_types[0]) | type_dict
                 else:
                     type_dict |= {"oneOf": [self._convert_field(t) for t in types]}
             case StructType():
-- 
2.43.0


From 953e1275b68190aebd949d101eb911566eb59bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:07 +0000
Subject: [PATCH 18/79] fix: recognize nulls with attributes in is_optional

---
 recap/types.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 1ce7686..51423fe 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -306,9 +306,12 @@ class UnionType(RecapType):
 
         :return: True if the union is an optional type
         """
-        has_null = NullType() in self.types
+        # Can't compare with `NullType()` because equality checks extra_attrs,
+        # which can vary. Instead, just look for any NullType instance.
+        non_null_types = [t for t in self.types if not isinstance(t, NullType)]
+        has_null = len(non_null_types) < len(self.types)
         has_default = "default" in self.extra_attrs
-        has_non_null = len(list(filter(lambda t: t != NullType(), self.types))) == 1
+        has_non_null = len(non_null_types) == 1
         return has_null and has_default and has_non_null
 
 
-- 
2.43.0


From d5ca46bab82b81a5d8b1184710fa9343fac7d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:41 +0000
Subject: [PATCH 19/79] fix: don't pop the default Protobuf namespace

---
 recap/converters/protobuf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index ec8833f..34c44ee 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -117,7 +117,8 @@ class ProtobufConverter:
         if root_message is None:
             raise ValueError("Protobuf schema must contain at least one Message")
 
-        self.namespaces.pop()
+        if packages:
+            self.namespaces.pop()
 
         return root_message
 
-- 
2.43.0


From e93454aedafb732688bc9a243f525d9fe2427575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:45 +0000
Subject: [PATCH 20/79] fix: define each Protobuf type once when resolving
 references

---
 recap/converters/protobuf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 34c44ee..828a30a 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -60,8 +60,8 @@ class ProtobufConverter:
         resolved: set[str] | None = None,
         seen: set[str] | None = None,
     ) -> RecapType:
-        resolved = resolved or set()
-        seen = seen or set()
+        resolved = set() if resolved is None else resolved
+        seen = set() if seen is None else seen
 
         # Detect circular references.
         if not isinstance(recap_type, ProxyType) and recap_type.alias is not None:
-- 
2.43.0


From 2bb919da2b8e5879b5ccde13c96cc2a0a1466aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:51 +0000
Subject: [PATCH 21/79] fix: resolve fully qualified Protobuf type names with a
 leading dot

---
 recap/converters/protobuf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 828a30a..fbb74f9 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -246,8 +246,9 @@ class ProtobufConverter:
                 return NullType()
             case _:
                 # Create a ProxyType and hope we have a type alias for this type.
+                # A leading dot means that the type name is fully qualified.
                 alias = (
-                    protobuf_type
+                    protobuf_type.removeprefix(".")
                     if "." in protobuf_type
                     else f"{self.namespaces[-1]}.{protobuf_type}"
                 )
-- 
2.43.0


From 71c7e462964c8efcd6462a89323c44e5a503d2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:57 +0000
Subject: [PATCH 22/79] fix: read Protobuf maps with boolean keys

---
 recap/converters/protobuf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index fbb74f9..f8c59a0 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -167,8 +167,8 @@ class ProtobufConverter:
     def _parse_map_field(self, field: MapField) -> RecapType:
         key_type = self._protobuf_type_to_recap_type(field.key_type)
 
-        # Proto map keys are always strings or integers.
-        assert isinstance(key_type, IntType) or isinstance(key_type, StringType)
+        # Proto map keys are always strings, integers, or booleans.
+        assert isinstance(key_type, IntType | StringType | BoolType)
 
         value_type = self._protobuf_type_to_recap_type(field.value_type)
         map_type = UnionType(
-- 
2.43.0


From 87ad27190b066d3e8dff24f53ad284461495cf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:02 +0000
Subject: [PATCH 23/79] fix: write Protobuf strings and bytes of the length
 they are read with

---
 recap/converters/protobuf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index f8c59a0..b52d699 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -429,9 +429,9 @@ class ProtobufConverter:
                     "Invalid bit size for FloatType. Protobuf supports only 32 "
                     "or 64 bits for floating-point types."
                 )
-            case StringType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_647:
+            case StringType(bytes_=bytes_) if bytes_ is None or bytes_ <= 2_147_483_648:
                 return Field(field_name, field_number, "string")
-            case BytesType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_647:
+            case BytesType(bytes_=bytes_) if bytes_ is None or bytes_ <= 2_147_483_648:
                 return Field(field_name, field_number, "bytes")
             case ListType(values=values):
                 nested_field = self._recap_to_field(values, field_number, package)
-- 
2.43.0


From c5bed94b3544dbde503d093f5ebc8fce0e9cc4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:06 +0000
Subject: [PATCH 24/79] fix: don't reuse the field numbers of Protobuf oneof
 fields

---
 recap/converters/protobuf.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index b52d699..1346093 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -323,10 +323,14 @@ class ProtobufConverter:
                 message_elements: list[MessageElement] = []
 
                 for field in recap_type.fields:
-                    message_elements.append(
-                        self._recap_to_field(field, field_number, package)
+                    message_element = self._recap_to_field(field, field_number, package)
+                    message_elements.append(message_element)
+                    # Every field in a oneof has its own field number.
+                    field_number += (
+                        len(message_element.elements)
+                        if isinstance(message_element, OneOf)
+                        else 1
                     )
-                    field_number += 1
                     self._from_recap_gather_types(field, package_to_types)
 
                 package_to_types.setdefault(package, []).append(
-- 
2.43.0


From d82e5de5fcad9d889aee49c89d36177c74749eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:10 +0000
Subject: [PATCH 25/79] fix: keep the names of lists and nullable fields in
 Protobuf

---
 recap/converters/protobuf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 1346093..47c343f 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -443,6 +443,8 @@ class ProtobufConverter:
                     nested_field,
                     Field,
                 ), "Maps and unions can't be repeated (lists)."
+                if "name" not in values.extra_attrs:
+                    nested_field.name = field_name
                 nested_field.cardinality = FieldCardinality.REPEATED
                 return nested_field
             case MapType(keys=keys, values=values):
@@ -469,6 +471,8 @@ class ProtobufConverter:
                         package,
                     )
                     assert isinstance(field, Field), "Maps can't be nullable."
+                    if "name" not in non_null_types[0].extra_attrs:
+                        field.name = field_name
                     field.cardinality = FieldCardinality.OPTIONAL
                     return field
                 else:
-- 
2.43.0


From b9f3ef27536a2f39de4e8c072acdd86f8092d721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:16 +0000
Subject: [PATCH 26/79] fix: write nullable lists and maps as repeated and map
 Protobuf fields

---
 recap/converters/protobuf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 47c343f..a3634bb 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -470,10 +470,12 @@ class ProtobufConverter:
                         field_number,
                         package,
                     )
-                    assert isinstance(field, Field), "Maps can't be nullable."
+                    assert not isinstance(field, OneOf), "Unions can't be nullable."
                     if "name" not in non_null_types[0].extra_attrs:
                         field.name = field_name
-                    field.cardinality = FieldCardinality.OPTIONAL
+                    # Repeated fields and maps have no other way to be optional.
+                    if isinstance(field, Field) and field.cardinality is None:
+                        field.cardinality = FieldCardinality.OPTIONAL
                     return field
                 else:
                     # Multiple non-null types means this is a true union of multiple types.
-- 
2.43.0


From 76fa5ece4d5042137e25d74632c6df1315842c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:41 +0000
Subject: [PATCH 27/79] fix: resolve built-in aliases in Protobuf

---
 recap/converters/protobuf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index a3634bb..a5cdc78 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -491,6 +491,9 @@ class ProtobufConverter:
                         oneof_fields.append(field)
                         oneof_field_num += 1
                     return OneOf(field_name, oneof_fields)
+            case ProxyType(alias=str(alias)) if "." not in alias:
+                # Built-in aliases are scalar types, not messages or enums.
+                return self._recap_to_field(recap_type.resolve(), field_number, package)
             case (
                 StructType(alias=alias) | EnumType(alias=alias) | ProxyType(alias=alias)
             ):
-- 
2.43.0


From 1e5e036b024c2183d8cb9e3de63203fd42691b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:46 +0000
Subject: [PATCH 28/79] fix: reject nested lists and map keys that Protobuf
 doesn't support

---
 recap/converters/protobuf.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index a5cdc78..cf776fb 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -35,6 +35,11 @@ DEFAULT_NAMESPACE = "_root"
 Namespace to use when no namespace is specified in the schema.
 """
 
+MAP_KEY_TYPES = {"bool", "int32", "int64", "uint32", "uint64", "string"}
+"""
+Protobuf types that from_recap can use as map keys.
+"""
+
 
 class ProtobufConverter:
     def __init__(self, namespace: str = DEFAULT_NAMESPACE) -> None:
@@ -439,10 +444,10 @@ class ProtobufConverter:
                 return Field(field_name, field_number, "bytes")
             case ListType(values=values):
                 nested_field = self._recap_to_field(values, field_number, package)
-                assert isinstance(
-                    nested_field,
-                    Field,
-                ), "Maps and unions can't be repeated (lists)."
+                assert (
+                    isinstance(nested_field, Field)
+                    and nested_field.cardinality != FieldCardinality.REPEATED
+                ), "Lists, maps and unions can't be repeated (lists)."
                 if "name" not in values.extra_attrs:
                     nested_field.name = field_name
                 nested_field.cardinality = FieldCardinality.REPEATED
@@ -451,10 +456,15 @@ class ProtobufConverter:
                 # 0 field_number because we ignore it. We just need types.
                 key_field = self._recap_to_field(keys, 0, package)
                 value_field = self._recap_to_field(values, 0, package)
-                assert isinstance(
-                    key_field, Field
+                assert (
+                    isinstance(key_field, Field)
+                    and key_field.cardinality is None
+                    and key_field.type in MAP_KEY_TYPES
                 ), "Key must be integral or string type."
-                assert isinstance(value_field, Field), "Value must not be a map type."
+                assert (
+                    isinstance(value_field, Field)
+                    and value_field.cardinality != FieldCardinality.REPEATED
+                ), "Value must not be a list, map, or union type."
                 return MapField(
                     field_name,
                     field_number,
@@ -488,6 +498,9 @@ class ProtobufConverter:
                             oneof_field_num,
                             package,
                         )
+                        assert (
+                            isinstance(field, Field) and field.cardinality is None
+                        ), "Lists, maps and unions can't be in a union."
                         oneof_fields.append(field)
                         oneof_field_num += 1
                     return OneOf(field_name, oneof_fields)
-- 
2.43.0


From 5292ce24a63c3b859c5b9e5fbebbd0ed738a7e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:51 +0000
Subject: [PATCH 29/79] fix: reject types that can't be declared in the
 Protobuf file

---
 recap/converters/protobuf.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index cf776fb..466f0ca 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -293,9 +293,16 @@ class ProtobufConverter:
         self._from_recap_gather_types(struct_type, package_to_types)
         # Lexicographical sort always puts the root package first.
         package = sorted(package_to_types.keys())[0]
-        # Verify all subpackages are under the root package.
+        # Verify all subpackages are messages under the root package. Otherwise,
+        # there would be no place to declare their types.
+        messages = {
+            f"{message_package}.{type_.name}"
+            for message_package, types in package_to_types.items()
+            for type_ in types
+            if isinstance(type_, Message)
+        }
         for subpackage in package_to_types.keys():
-            assert subpackage.startswith(package), (
+            assert subpackage == package or subpackage in messages, (
                 "Proto files must contain messages in a single root package space, "
                 f"but found root={package} and subpackage={subpackage}."
             )
-- 
2.43.0


From a87971e74b543fcfd28879c33e20362792478d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:34 +0000
Subject: [PATCH 30/79] fix: resolve references nested in aliased types to
 aliases registered later

---
 recap/types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recap/types.py b/recap/types.py
index 51423fe..96895de 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -352,6 +352,11 @@ class RecapTypeRegistry:
         # Define and register built-in aliases
         self._type_registry: dict[str, RecapType] = copy.deepcopy(BUILTIN_ALIASES)
 
+    def __deepcopy__(self, memo: dict[int, Any]) -> RecapTypeRegistry:
+        # A copy of a ProxyType still refers to the same registry. Otherwise,
+        # it couldn't be resolved to aliases that are registered later.
+        return self
+
     def register_alias(self, recap_type: RecapType):
         alias = recap_type.alias
         if alias is None:
-- 
2.43.0


From 52797a793a9d23b4dd470ca6a8082365afa0057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:45 +0000
Subject: [PATCH 31/79] fix: read PostgreSQL arrays of types with an internal
 name

---
 recap/converters/postgresql.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index d5c17cf..a453c3e 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -50,13 +50,13 @@ class PostgresqlConverter(DbapiConverter):
             base_type = IntType(bits=64, signed=True)
         elif data_type in ["integer", "int", "int4", "serial", "serial4"]:
             base_type = IntType(bits=32, signed=True)
-        elif data_type in ["smallint", "smallserial", "serial2"]:
+        elif data_type in ["smallint", "int2", "smallserial", "serial2"]:
             base_type = IntType(bits=16, signed=True)
         elif data_type in ["double precision", "float8"]:
             base_type = FloatType(bits=64)
         elif data_type in ["real", "float4"]:
             base_type = FloatType(bits=32)
-        elif data_type == "boolean":
+        elif data_type in ["boolean", "bool"]:
             base_type = BoolType()
         elif (
             data_type in ["text", "json", "jsonb"]
@@ -64,7 +64,7 @@ class PostgresqlConverter(DbapiConverter):
             or data_type.startswith("varchar")
         ):
             base_type = StringType(bytes_=octet_length, variable=True)
-        elif data_type.startswith("char"):
+        elif data_type.startswith("char") or data_type == "bpchar":
             base_type = StringType(bytes_=octet_length, variable=False)
         elif data_type == "uuid":
             base_type = StringType(
@@ -72,7 +72,7 @@ class PostgresqlConverter(DbapiConverter):
                 bytes_=36,
                 variable=False,
             )
-        elif data_type == "bytea" or data_type.startswith("bit varying"):
+        elif data_type in ["bytea", "varbit"] or data_type.startswith("bit varying"):
             base_type = BytesType(bytes_=MAX_FIELD_SIZE, variable=True)
         elif data_type.startswith("bit"):
             byte_length = ceil(max_length / 8)
-- 
2.43.0


From 7ad05cd1286e4d1bd23442aaf4c60cb430c4dd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:50 +0000
Subject: [PATCH 32/79] fix: read PostgreSQL arrays of timestamps and decimals

---
 recap/converters/postgresql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index a453c3e..a872808 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -112,6 +112,10 @@ class PostgresqlConverter(DbapiConverter):
                     "CHARACTER_OCTET_LENGTH": MAX_FIELD_SIZE,
                     # * 8 because bit columns use bits not bytes.
                     "CHARACTER_MAXIMUM_LENGTH": MAX_FIELD_SIZE * 8,
+                    # PostgreSQL's default is microsecond precision.
+                    "DATETIME_PRECISION": 6,
+                    "NUMERIC_PRECISION": None,
+                    "NUMERIC_SCALE": None,
                     "UDT_NAME": None,
                     "ATTNDIMS": 0,
                 }
-- 
2.43.0


From 8f27cd8a9ce7dcba561206635b01ea61e3914f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:55 +0000
Subject: [PATCH 33/79] fix: read PostgreSQL array columns of the same name
 more than once

---
 recap/converters/postgresql.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index a872808..7664009 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -14,6 +14,7 @@ from recap.types import (
     RecapType,
     RecapTypeRegistry,
     StringType,
+    StructType,
     UnionType,
 )
 
@@ -38,6 +39,12 @@ class PostgresqlConverter(DbapiConverter):
         self.namespace = namespace
         self.registry = RecapTypeRegistry()
 
+    def to_recap(self, columns: list[dict[str, Any]]) -> StructType:
+        # Array aliases are named after columns, so every table (or the same
+        # table, again) needs its own registry.
+        self.registry = RecapTypeRegistry()
+        return super().to_recap(columns)
+
     def _parse_type(self, column_props: dict[str, Any]) -> RecapType:
         column_name = column_props["COLUMN_NAME"]
         data_type = column_props["DATA_TYPE"].lower()
-- 
2.43.0


From b3ec3da4edb2e238ec23a070e6bd1e00da6ae06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:01 +0000
Subject: [PATCH 34/79] fix: read PostgreSQL array columns whose names aren't
 valid aliases

---
 recap/converters/postgresql.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index 7664009..c0e85fa 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -1,4 +1,5 @@
 from math import ceil
+from re import sub
 from typing import Any
 
 from recap.converters.dbapi import DbapiConverter
@@ -130,8 +131,11 @@ class PostgresqlConverter(DbapiConverter):
             if self.enforce_array_dimensions:
                 base_type = self._create_n_dimension_list(value_type, ndims)
             else:
-                column_name_without_periods = column_name.replace(".", "_")
-                base_type_alias = f"{self.namespace}.{column_name_without_periods}"
+                # Column names can contain any character, but aliases can't.
+                alias_name = sub(r"^(?=[0-9])|[^a-zA-Z0-9_]", "_", column_name)
+                base_type_alias = f"{self.namespace}.{alias_name}"
+                while self._is_registered(base_type_alias):
+                    base_type_alias += "_"
                 # Construct a self-referencing list comprised of the array's value
                 # type and a proxy to the list itself. This allows arrays to be an
                 # arbitrary number of dimensions, which is how PostgreSQL treats
@@ -159,6 +163,13 @@ class PostgresqlConverter(DbapiConverter):
 
         return base_type
 
+    def _is_registered(self, alias: str) -> bool:
+        try:
+            self.registry.from_alias(alias)
+        except TypeError:
+            return False
+        return True
+
     def _create_n_dimension_list(self, base_type: RecapType, ndims: int) -> RecapType:
         """
         Build a list type with `ndims` dimensions containing nullable `base_type` as the innermost value type.
-- 
2.43.0


From db02e77c7e8aca8a1a01853ee0a7e4a738ab579e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:06 +0000
Subject: [PATCH 35/79] fix: quote the table name in SQLite's table_info

---
 recap/clients/sqlite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 0cf65a2..45fff8f 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -85,7 +85,8 @@ class SQLiteClient:
         if not self._table_exists(table):
             raise ValueError(f"Table '{table}' does not exist in the database.")
 
-        cursor.execute(f"PRAGMA table_info({table});")
+        quoted_table = table.replace('"', '""')
+        cursor.execute(f'PRAGMA table_info("{quoted_table}");')
         names = [name[0].upper() for name in cursor.description]
         rows = []
 
-- 
2.43.0


From 77074a34d47e614817bc7cf0500ad67091d8b8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:26 +0000
Subject: [PATCH 36/79] fix: read unsigned MySQL integers as unsigned

---
 recap/converters/mysql.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/recap/converters/mysql.py b/recap/converters/mysql.py
index 4947ff0..5fec6d6 100644
--- a/recap/converters/mysql.py
+++ b/recap/converters/mysql.py
@@ -10,22 +10,24 @@ class MysqlConverter(DbapiConverter):
         octet_length = column_props["CHARACTER_OCTET_LENGTH"]
         precision = column_props["NUMERIC_PRECISION"]
         scale = column_props["NUMERIC_SCALE"]
+        # DATA_TYPE is "int" for both `int` and `int unsigned` columns.
+        signed = "unsigned" not in (column_props.get("COLUMN_TYPE") or "").lower()
 
         if data_type == "bigint":
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=64, signed=True)
+            base_type = IntType(bits=64, signed=signed)
         elif data_type in ["int", "integer"]:
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=32, signed=True)
+            base_type = IntType(bits=32, signed=signed)
         elif data_type == "mediumint":
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=24, signed=True)
+            base_type = IntType(bits=24, signed=signed)
         elif data_type == "smallint":
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=16, signed=True)
+            base_type = IntType(bits=16, signed=signed)
         elif data_type == "tinyint":
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=8, signed=True)
+            base_type = IntType(bits=8, signed=signed)
         elif data_type == "double" or (data_type == "float" and precision > 23):
             # https://dev.mysql.com/doc/refman/8.0/en/floating-point-types.html
             base_type = FloatType(bits=64)
-- 
2.43.0


From 89cc22f1c76c0d58ca95969855230b95e856b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:19 +0000
Subject: [PATCH 37/79] fix: read the length of SQLite types such as CHARACTER
 VARYING(20)

The affinity was taken from the last word before the parameters (VARYING),
so the length became a numeric precision and was lost.
---
 recap/clients/sqlite.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 45fff8f..33c9955 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -127,12 +127,13 @@ class SQLiteClient:
 
         if param_match:
             # Extract matched values
-            base_type, precision, scale = param_match.groups()
-            base_type = base_type.upper()
+            _, precision, scale = param_match.groups()
             precision = int(precision)
             scale = int(scale) if scale else 0
 
-            match SQLiteConverter.get_affinity(base_type):
+            # The word before the parameters isn't always the one that decides the
+            # affinity (CHARACTER VARYING(20)), so use the whole type.
+            match SQLiteConverter.get_affinity(row["TYPE"]):
                 case SQLiteAffinity.INTEGER | SQLiteAffinity.REAL | SQLiteAffinity.NUMERIC:
                     information_schema_cols["NUMERIC_PRECISION"] = precision
                     information_schema_cols["NUMERIC_SCALE"] = scale
-- 
2.43.0


From 905ca3221a8dc8d03898a3a66dd5926b8c0c90c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:36 +0000
Subject: [PATCH 38/79] fix: read the parameters of SQLite types that contain
 whitespace

PRAGMA table_info reports types as they were declared, for example
VARCHAR (20), and the length was lost.
---
 recap/clients/sqlite.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 33c9955..69ce988 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -121,8 +121,11 @@ class SQLiteClient:
         # Extract precision, scale, and octet length.
         # This regex matches the following patterns:
         # - <type>(<param1>(, <param2>)?)
+        # SQLite keeps the whitespace of the declaration, so allow it anywhere.
         # param1 can be a precision or octet length, and param2 can be a scale.
-        numeric_pattern = re_compile(r"(\w+)\((\d+)(?:,\s*(\d+))?\)")
+        numeric_pattern = re_compile(
+            r"(\w+)\s*\(\s*(\d+)\s*(?:,\s*(\d+)\s*)?\)"
+        )
         param_match = numeric_pattern.search(row["TYPE"])
 
         if param_match:
-- 
2.43.0


From 60d2bab3261fe32f295fe7738f4e51a3e48f4ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:50 +0000
Subject: [PATCH 39/79] fix: read PostgreSQL enum values in their declared
 order

array_agg doesn't promise any order, and values that were added later with
ALTER TYPE ... ADD VALUE ... BEFORE are not stored in the type's order.
---
 recap/clients/postgresql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/clients/postgresql.py b/recap/clients/postgresql.py
index 246d043..3a960bb 100644
--- a/recap/clients/postgresql.py
+++ b/recap/clients/postgresql.py
@@ -111,7 +111,7 @@ class PostgresqlClient(DbapiClient):
                 LEFT JOIN (
                     SELECT
                         enumtypid,
-                        array_agg(enumlabel) AS enum_values
+                        array_agg(enumlabel ORDER BY enumsortorder) AS enum_values
                     FROM pg_catalog.pg_enum
                     GROUP BY enumtypid
                 ) enums ON enums.enumtypid = pg_catalog.pg_type.oid
-- 
2.43.0


From c1c84fb1530ba98a6dd0175f6e20a058833d759a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:46 +0000
Subject: [PATCH 40/79] fix: don't nest the attributes of lists and maps in
 Hive unions

Lists and maps in a union got an attribute called extra_attrs that contained
all their attributes.
---
 recap/converters/hive_metastore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/hive_metastore.py b/recap/converters/hive_metastore.py
index 996eb7f..ca65a69 100644
--- a/recap/converters/hive_metastore.py
+++ b/recap/converters/hive_metastore.py
@@ -216,13 +216,13 @@ class HiveMetastoreConverter:
         elif isinstance(recap_type, ListType):
             return ListType(
                 values=self._flatten_unions(recap_type.values),
-                extra_attrs=extra_attrs,
+                **extra_attrs,
             )
         elif isinstance(recap_type, MapType):
             return MapType(
                 keys=self._flatten_unions(recap_type.keys),
                 values=self._flatten_unions(recap_type.values),
-                extra_attrs=extra_attrs,
+                **extra_attrs,
             )
         else:
             # No nested union type to flatten
-- 
2.43.0


From 4c5124a5d5b42614afe2f00fc4c3ab1c4adbf229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:52 +0000
Subject: [PATCH 41/79] fix: read BigQuery BOOL and BIGINT fields

BOOL and BIGINT are the documented aliases of BOOLEAN and INT64, but were
rejected.
---
 recap/converters/bigquery.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/recap/converters/bigquery.py b/recap/converters/bigquery.py
index 7532d13..f7ffe9c 100644
--- a/recap/converters/bigquery.py
+++ b/recap/converters/bigquery.py
@@ -26,11 +26,19 @@ class BigQueryConverter:
                     field_type = StringType(bytes_=field.max_length)
                 case "BYTES":
                     field_type = BytesType(bytes_=field.max_length)
-                case "INT64" | "INTEGER" | "INT" | "SMALLINT" | "TINYINT" | "BYTEINT":
+                case (
+                    "INT64"
+                    | "INTEGER"
+                    | "INT"
+                    | "SMALLINT"
+                    | "BIGINT"
+                    | "TINYINT"
+                    | "BYTEINT"
+                ):
                     field_type = IntType(bits=64)
                 case "FLOAT" | "FLOAT64":
                     field_type = FloatType(bits=64)
-                case "BOOLEAN":
+                case "BOOLEAN" | "BOOL":
                     field_type = BoolType()
                 case "TIMESTAMP" | "DATETIME":
                     field_type = IntType(
-- 
2.43.0


From 55a88033402b0e3d1caea071363cf09c496292a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:56 +0000
Subject: [PATCH 42/79] fix: accept the arguments that BigQueryClient.parse
 returns in ls

parse always returns a project, dataset and table, but ls took a project and
a dataset, so every ls of a BigQuery URL failed with a TypeError.
---
 recap/clients/bigquery.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/recap/clients/bigquery.py b/recap/clients/bigquery.py
index 5434ada..b70a526 100644
--- a/recap/clients/bigquery.py
+++ b/recap/clients/bigquery.py
@@ -29,13 +29,18 @@ class BigQueryClient:
             case _:
                 raise ValueError("Invalid method")
 
-    def ls(self, project: str | None = None, dataset: str | None = None) -> list[str]:
-        match (project, dataset):
-            case (None, None):
+    def ls(
+        self,
+        project: str | None = None,
+        dataset: str | None = None,
+        table: str | None = None,
+    ) -> list[str]:
+        match (project, dataset, table):
+            case (None, None, None):
                 return self.ls_projects()
-            case (str(project), None):
+            case (str(project), None, None):
                 return self.ls_datasets(project)
-            case (str(project), str(dataset)):
+            case (str(project), str(dataset), None):
                 return self.ls_tables(project, dataset)
             case _:
                 raise ValueError("Invalid arguments")
-- 
2.43.0


From 1fab3979c14493dd3e709daee08ceeb132937a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:56 +0000
Subject: [PATCH 43/79] fix: list registry storage on file systems that return
 details by default

---
 recap/storage/registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index 2904d8d..94b1ee6 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -16,7 +16,7 @@ class RegistryStorage:
         return sorted(
             [
                 unquote_plus(file_path[len(self.root_path) + 1 :])
-                for file_path in self.fs.ls(self.root_path)
+                for file_path in self.fs.ls(self.root_path, detail=False)
             ]
         )
 
@@ -70,7 +70,7 @@ class RegistryStorage:
             return sorted(
                 [
                     int(Path(file_path).stem)
-                    for file_path in self.fs.ls(path_without_version)
+                    for file_path in self.fs.ls(path_without_version, detail=False)
                 ]
             )
         except FileNotFoundError:
-- 
2.43.0


From f17292fcc8663953344f4500a241bd89dfacc575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:01 +0000
Subject: [PATCH 44/79] fix: keep registry types named . and .. in their own
 directory

---
 recap/storage/registry.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index 94b1ee6..f577a7d 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -25,7 +25,7 @@ class RegistryStorage:
         name: str,
         version: int | None = None,
     ) -> tuple[RecapType, int] | None:
-        quoted_name = quote_plus(name)
+        quoted_name = self._quote(name)
 
         if version is None:
             versions = self.versions(name)
@@ -47,7 +47,7 @@ class RegistryStorage:
         type_: RecapType,
         version: int | None = None,
     ) -> int:
-        quoted_name = quote_plus(name)
+        quoted_name = self._quote(name)
 
         if version is None:
             version = (self.latest(name) or 0) + 1
@@ -63,7 +63,7 @@ class RegistryStorage:
         return version
 
     def versions(self, name: str) -> list[int] | None:
-        quoted_name = quote_plus(name)
+        quoted_name = self._quote(name)
         path_without_version = f"{self.root_path}/{quoted_name}"
 
         try:
@@ -81,3 +81,13 @@ class RegistryStorage:
         if not versions:
             return None
         return max(versions)
+
+    @staticmethod
+    def _quote(name: str) -> str:
+        quoted_name = quote_plus(name)
+
+        # quote_plus doesn't quote dots, but "." and ".." aren't file names.
+        if quoted_name in (".", ".."):
+            quoted_name = quoted_name.replace(".", "%2E")
+
+        return quoted_name
-- 
2.43.0


From e1c58a1fe669929bdb14cd703a23a1bb5a35a855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:06 +0000
Subject: [PATCH 45/79] fix: don't leave an incomplete version when a registry
 put fails

---
 recap/storage/registry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index f577a7d..72e2a44 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -57,8 +57,10 @@ class RegistryStorage:
 
         self.fs.mkdirs(path_without_version, exist_ok=True)
 
-        with self.fs.open(f"{path_without_version}/{version}.json", "w") as f:
-            json.dump(type_dict, f)
+        # Write in a transaction so that readers never see an incomplete version.
+        with self.fs.transaction:
+            with self.fs.open(f"{path_without_version}/{version}.json", "w") as f:
+                json.dump(type_dict, f)
 
         return version
 
-- 
2.43.0


From b44053cbcb8a74c5db6e89c0726bc2f5f0799b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:09 +0000
Subject: [PATCH 46/79] fix: don't overwrite a version that was stored while
 waiting for a PUT body

---
 recap/server/registry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recap/server/registry.py b/recap/server/registry.py
index 365bb63..3a69915 100644
--- a/recap/server/registry.py
+++ b/recap/server/registry.py
@@ -76,14 +76,16 @@ async def put(
     request: Request,
     storage: RegistryStorage = Depends(get_storage),
 ):
+    type_ = await _request_to_type(request)
+
+    # Don't await between this check and the put. Another request could store the
+    # version in the meantime.
     if storage.get(name, version):
         raise HTTPException(
             status_code=409,
             detail=f"Type {name} version {version} already exists",
         )
 
-    type_ = await _request_to_type(request)
-
     return storage.put(name, type_, version)
 
 
-- 
2.43.0


From 7517bdcccd85e9da39954188a7bd45b1799fb998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:13 +0000
Subject: [PATCH 47/79] fix: answer 400 to registry types that aren't UTF-8

---
 recap/server/registry.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/recap/server/registry.py b/recap/server/registry.py
index 3a69915..d1052a1 100644
--- a/recap/server/registry.py
+++ b/recap/server/registry.py
@@ -99,16 +99,17 @@ async def _request_to_type(request: Request) -> RecapType:
         )
 
     type_bytes = await request.body()
-    type_str = type_bytes.decode("utf-8")
 
     try:
-        type_json = json.loads(type_str)
-    except json.JSONDecodeError:
-        # Assume payload is string alias if we can't decode as JSON.
-        # If it's not, from_dict will fail below.
-        type_json = type_str
+        type_str = type_bytes.decode("utf-8")
+
+        try:
+            type_json = json.loads(type_str)
+        except json.JSONDecodeError:
+            # Assume payload is string alias if we can't decode as JSON.
+            # If it's not, from_dict will fail below.
+            type_json = type_str
 
-    try:
         return from_dict(type_json)
     except Exception as e:
         raise HTTPException(
-- 
2.43.0


From 863ca08d4fa430350fc390812807bb87ea5a70c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:20 +0000
Subject: [PATCH 48/79] fix: don't add slashes to file URLs in settings

---
 recap/settings.py | 53 +++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index 0ec5c5c..6c7207b 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -1,7 +1,7 @@
 import os
 from pathlib import Path
 from typing import Any
-from urllib.parse import parse_qs, urlencode, urlsplit, urlunsplit
+from urllib.parse import parse_qs, urlencode, urlsplit
 
 from dotenv import load_dotenv
 from pydantic import AnyUrl, Field
@@ -24,6 +24,23 @@ def mkdirs():
 mkdirs()
 
 
+def _unsplit_url(
+    scheme: str, netloc: str, path: str, query: str, fragment: str
+) -> str:
+    """
+    Like `urllib.parse.urlunsplit`, which only writes the double slash of URLs with
+    an empty netloc for some schemes. But most URLs with an empty netloc should have
+    a double slash (e.g. bigquery:// or sqlite:///some/file.db).
+    """
+
+    url = f"{scheme}://{netloc}{path}"
+    if query:
+        url += f"?{query}"
+    if fragment:
+        url += f"#{fragment}"
+    return url
+
+
 class RecapSettings(BaseSettings):
     urls: list[AnyUrl] = Field(default_factory=list)
     registry_storage_url: AnyUrl = Field(default=DEFAULT_REGISTRY_STORAGE_PATH.as_uri())
@@ -54,8 +71,8 @@ class RecapSettings(BaseSettings):
                 if split_url.port is not None:
                     netloc += f":{split_url.port}"
 
-            sanitized_url = urlunsplit(
-                (
+            safe_urls_list.append(
+                _unsplit_url(
                     split_url.scheme,
                     netloc,
                     split_url.path.rstrip("/"),
@@ -64,14 +81,6 @@ class RecapSettings(BaseSettings):
                 )
             )
 
-            # urlunsplit does not double slashes if netloc is empty. But most
-            # URLs with empty netloc should have a double slash (e.g.
-            # bigquery:// or sqlite:///some/file.db).
-            if not netloc:
-                sanitized_url = sanitized_url.replace(":", "://", 1)
-
-            safe_urls_list.append(sanitized_url)
-
         return safe_urls_list
 
     def unsafe_url(self, url: str, strict: bool = True) -> str:
@@ -109,24 +118,14 @@ class RecapSettings(BaseSettings):
                 merged_qs = unsafe_qs | url_qs
                 query = urlencode(merged_qs, doseq=True)
 
-                merged_url = urlunsplit(
-                    (
-                        url_split.scheme,
-                        netloc,
-                        url_path.rstrip("/"),
-                        query,
-                        url_split.fragment or unsafe_url_split.fragment,
-                    )
+                return _unsplit_url(
+                    url_split.scheme,
+                    netloc,
+                    url_path.rstrip("/"),
+                    query,
+                    url_split.fragment or unsafe_url_split.fragment,
                 )
 
-                # urlunsplit does not double slashes if netloc is empty. But most
-                # URLs with empty netloc should have a double slash (e.g.
-                # bigquery:// or sqlite:///some/file.db).
-                if not netloc:
-                    merged_url = merged_url.replace(":", "://", 1)
-
-                return merged_url
-
         if strict:
             raise ValueError(f"URL must be configured in Recap settings: {url}")
 
-- 
2.43.0


From 3aea6308bfa055a43bbdde5ce5521642d19d0c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:24 +0000
Subject: [PATCH 49/79] fix: keep the brackets of IPv6 hosts in safe URLs

---
 recap/settings.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index 6c7207b..860e410 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -65,11 +65,9 @@ class RecapSettings(BaseSettings):
             netloc = split_url.netloc
 
             if split_url.username or split_url.password:
-                if split_url.hostname is not None:
-                    netloc = split_url.hostname
-
-                if split_url.port is not None:
-                    netloc += f":{split_url.port}"
+                # Only remove the credentials. Rebuilding the netloc from its hostname
+                # and port would lose the brackets of IPv6 addresses.
+                netloc = netloc.rpartition("@")[2]
 
             safe_urls_list.append(
                 _unsplit_url(
-- 
2.43.0


From 7afac1d5f575f00fd0f9f5988ea5c0b940491edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:28 +0000
Subject: [PATCH 50/79] fix: match URLs with settings URLs that have no path

---
 recap/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/settings.py b/recap/settings.py
index 860e410..cef2cb3 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -104,7 +104,7 @@ class RecapSettings(BaseSettings):
                 unsafe_url_split.scheme == url_split.scheme
                 and unsafe_url_split.hostname == url_split.hostname
                 and unsafe_url_split.port == url_split.port
-                and url_path.startswith(Path(unsafe_url_split.path).as_posix())
+                and url_path.startswith(Path(unsafe_url_split.path or "/").as_posix())
             ):
                 netloc = unsafe_url_split.netloc
 
-- 
2.43.0


From e855040980b723141038544cfbc2b096883c671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:33 +0000
Subject: [PATCH 51/79] fix: don't use the credentials of a settings URL for
 sibling paths

---
 recap/settings.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/recap/settings.py b/recap/settings.py
index cef2cb3..77c7746 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -1,5 +1,6 @@
 import os
 from pathlib import Path
+from posixpath import normpath
 from typing import Any
 from urllib.parse import parse_qs, urlencode, urlsplit
 
@@ -41,6 +42,15 @@ def _unsplit_url(
     return url
 
 
+def _is_subpath(path: str, parent: str) -> bool:
+    """
+    Whether a path is its parent or below it. Whole segments are compared, so
+    /db2 and /db/../db2 are not below /db.
+    """
+
+    return f"{normpath(path)}/".startswith(f"{normpath(parent).rstrip('/')}/")
+
+
 class RecapSettings(BaseSettings):
     urls: list[AnyUrl] = Field(default_factory=list)
     registry_storage_url: AnyUrl = Field(default=DEFAULT_REGISTRY_STORAGE_PATH.as_uri())
@@ -104,7 +114,7 @@ class RecapSettings(BaseSettings):
                 unsafe_url_split.scheme == url_split.scheme
                 and unsafe_url_split.hostname == url_split.hostname
                 and unsafe_url_split.port == url_split.port
-                and url_path.startswith(Path(unsafe_url_split.path or "/").as_posix())
+                and _is_subpath(url_path, unsafe_url_split.path or "/")
             ):
                 netloc = unsafe_url_split.netloc
 
-- 
2.43.0


From e7ca166d687a7164a28accbd85c808bb590aebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:39 +0000
Subject: [PATCH 52/79] fix: keep the driver in the connection URL of Confluent
 and Hive URLs

---
 recap/clients/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index fe91054..bf12c85 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -65,6 +65,14 @@ def parse_url(method: str, url: str, strict: bool = True) -> tuple[str, list[Any
         module = import_module(module_path)
         client_class = getattr(module, class_name)
         connection_url, method_args = client_class.parse(method, **url_args)
+
+        # Clients return URLs with their dialect (e.g. http://), but settings and
+        # create_client need the scheme with the driver (e.g. http+csr://).
+        if dialect := url_args.get("dialect"):
+            connection_url = connection_url.replace(
+                f"{dialect}://", f"{scheme}://", 1
+            )
+
         return (settings.unsafe_url(connection_url, strict), method_args)
     else:
         raise ValueError(f"No clients available for scheme: {scheme}")
-- 
2.43.0


From 7a98539f494ed72cc1e799145baf043974f1b33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:45 +0000
Subject: [PATCH 53/79] fix: don't replace URL components by query parameters

---
 recap/clients/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index bf12c85..d972a57 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -132,7 +132,14 @@ def _url_to_dict(url: str) -> dict[str, str]:
     parsed_qs = {
         key: value[0] if len(value) == 1 else value for key, value in parsed_qs.items()
     }
-    parsed_dict |= parsed_qs
+
+    # Query parameters must not replace components of the URL. If they could, a URL
+    # could pick up the credentials of one host and connect to another.
+    parsed_dict |= {
+        key: value
+        for key, value in parsed_qs.items()
+        if key == "query" or parsed_dict.get(key) is None
+    }
 
     return parsed_dict
 
-- 
2.43.0


From b6301d714b4fca81fd767b056f84322e63df2ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 54/79] fix: decode the user and password of URLs

---
 recap/clients/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index d972a57..e6bcf7b 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from contextlib import contextmanager
 from importlib import import_module
 from typing import Any, Generator, Protocol
-from urllib.parse import parse_qs, urlparse
+from urllib.parse import parse_qs, unquote, urlparse
 
 from recap.settings import RecapSettings
 from recap.types import StructType
@@ -120,7 +120,10 @@ def _url_to_dict(url: str) -> dict[str, str]:
         url = url.replace(f"{dialect}+{driver}://", f"{dialect}://")
 
     if username := parsed_url.username:
-        parsed_dict["user"] = username
+        parsed_dict["username"] = parsed_dict["user"] = unquote(username)
+
+    if password := parsed_url.password:
+        parsed_dict["password"] = unquote(password)
 
     if hostname := parsed_url.hostname:
         parsed_dict["host"] = hostname
-- 
2.43.0


From 7a4fcd271579eeef7abd6a88c67318b9d819e122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:56 +0000
Subject: [PATCH 55/79] fix: connect to MySQL URLs without a port

---
 recap/clients/mysql.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/recap/clients/mysql.py b/recap/clients/mysql.py
index 004e40f..198c8d8 100644
--- a/recap/clients/mysql.py
+++ b/recap/clients/mysql.py
@@ -27,7 +27,11 @@ class MysqlClient(DbapiClient):
             url_args["database"] = paths[0]
 
         # Only include kwargs that are valid for the MySQL connector
-        kwargs = {k: v for k, v in url_args.items() if k in DEFAULT_CONFIGURATION}
+        kwargs = {
+            k: v
+            for k, v in url_args.items()
+            if k in DEFAULT_CONFIGURATION and v is not None
+        }
 
         with mysql.connector.connect(**kwargs) as client:
             yield MysqlClient(client)  # type: ignore
-- 
2.43.0


From 15aa81c3c98bb29360568d805fefd98a4f310289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:00 +0000
Subject: [PATCH 56/79] fix: connect to the database of Snowflake URLs without
 a schema

---
 recap/clients/snowflake.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/clients/snowflake.py b/recap/clients/snowflake.py
index b604992..848f084 100644
--- a/recap/clients/snowflake.py
+++ b/recap/clients/snowflake.py
@@ -20,7 +20,7 @@ class SnowflakeClient(DbapiClient):
         snowflake_args["account"] = url_args.pop("host")
 
         match url_args.get("paths"):
-            case str(database), None:
+            case [str(database)]:
                 snowflake_args["database"] = database
             case str(database), str(schema):
                 snowflake_args["database"] = database
-- 
2.43.0


From a66284ba068c69d255d6d633248d0a078dd94763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:03 +0000
Subject: [PATCH 57/79] fix: connect to Snowflake URLs without a port

---
 recap/clients/snowflake.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recap/clients/snowflake.py b/recap/clients/snowflake.py
index 848f084..1e50242 100644
--- a/recap/clients/snowflake.py
+++ b/recap/clients/snowflake.py
@@ -16,6 +16,8 @@ class SnowflakeClient(DbapiClient):
     def create(**url_args) -> Generator[SnowflakeClient, None, None]:
         import snowflake.connector
 
+        # The connector doesn't accept None for arguments that aren't set
+        url_args = {k: v for k, v in url_args.items() if v is not None}
         snowflake_args = {}
         snowflake_args["account"] = url_args.pop("host")
 
-- 
2.43.0


From 0555876b6ba2ac301298fff8944d424386d842ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:34 +0000
Subject: [PATCH 58/79] fix: read schemas of SQLite databases with absolute
 paths

---
 recap/clients/sqlite.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 69ce988..3efff2c 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -48,12 +48,14 @@ class SQLiteClient:
                 return (url_args["url"], [])
             case "schema":
                 table = url_args["paths"].pop(-1)
+                # The path of an absolute file has two slashes (sqlite:////some/file)
+                root = "/" if url_args["path"].startswith("//") else ""
                 connection_url = urlunparse(
                     [
                         url_args.get("dialect") or url_args.get("scheme"),
                         url_args.get("netloc"),
                         # Include / prefix for paths
-                        "/".join(url_args.get("paths", [])),
+                        root + "/".join(url_args.get("paths", [])),
                         url_args.get("params"),
                         url_args.get("query"),
                         url_args.get("fragment"),
-- 
2.43.0


From c44350a2aff0cbada2375bea1330983d1a57e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:38 +0000
Subject: [PATCH 59/79] fix: reject SQLite schema URLs without a table

---
 recap/clients/sqlite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 3efff2c..30a2a33 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -46,7 +46,7 @@ class SQLiteClient:
         match method:
             case "ls":
                 return (url_args["url"], [])
-            case "schema":
+            case "schema" if url_args["paths"]:
                 table = url_args["paths"].pop(-1)
                 # The path of an absolute file has two slashes (sqlite:////some/file)
                 root = "/" if url_args["path"].startswith("//") else ""
-- 
2.43.0


From 9b8e506e410c66656098482c1499c9e123f30084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:44 +0000
Subject: [PATCH 60/79] fix: reject Confluent schema URLs without a subject

---
 recap/clients/confluent_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/clients/confluent_registry.py b/recap/clients/confluent_registry.py
index 54c6563..eea4c6a 100644
--- a/recap/clients/confluent_registry.py
+++ b/recap/clients/confluent_registry.py
@@ -41,7 +41,7 @@ class ConfluentRegistryClient:
                     .replace("https+csr://", "https://")
                 )
                 return (url_with_clean_scheme, [])
-            case "schema":
+            case "schema" if url_args["paths"]:
                 subject = url_args["paths"].pop(-1)
                 connection_url = urlunparse(
                     [
-- 
2.43.0


From 50b6e2f37a73ae60b2584c8418fc9c6f60da08a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:09 +0000
Subject: [PATCH 61/79] fix: don't drop the first character of relative paths

---
 recap/clients/fs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recap/clients/fs.py b/recap/clients/fs.py
index 1a1496b..675d76f 100644
--- a/recap/clients/fs.py
+++ b/recap/clients/fs.py
@@ -26,8 +26,11 @@ class FilesystemClient:
 
         if split_url.netloc:
             path += split_url.netloc + "/"
-        if split_url.path:
+        if split_url.path.startswith("/"):
             path += split_url.path[1:] + "/"
+        elif split_url.path:
+            # Relative to the working directory
+            path = split_url.path + "/"
 
         return (root_url, [path])
 
-- 
2.43.0


From 4ead18786f39dd0ee21709411c1e488e0f0df1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:15 +0000
Subject: [PATCH 62/79] fix: don't wrap the lines of protobuf schemas in the
 CLI

---
 recap/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recap/cli.py b/recap/cli.py
index 6de5dba..702e0a7 100644
--- a/recap/cli.py
+++ b/recap/cli.py
@@ -1,7 +1,7 @@
 from typing import Annotated, Optional
 
 import typer
-from rich import print, print_json
+from rich import print_json
 
 from recap import commands
 
@@ -35,7 +35,8 @@ def schema(
         case dict():
             print_json(data=struct_obj)
         case str():
-            print(struct_obj)
+            # Rich would wrap long lines and treat [...] as markup
+            typer.echo(struct_obj)
         case _:
             raise ValueError(f"Unexpected schema type: {type(struct_obj)}")
 
-- 
2.43.0


From e2daa1805878fe752d50b00cd92b68b40e2d5125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:16 +0000
Subject: [PATCH 63/79] fix: send requests to the paths of Confluent URLs that
 have query parameters

---
 recap/clients/confluent_registry.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/recap/clients/confluent_registry.py b/recap/clients/confluent_registry.py
index eea4c6a..d023b14 100644
--- a/recap/clients/confluent_registry.py
+++ b/recap/clients/confluent_registry.py
@@ -23,9 +23,16 @@ class ConfluentRegistryClient:
     @staticmethod
     @contextmanager
     def create(**url_args) -> Generator[ConfluentRegistryClient, None, None]:
+        from urllib.parse import urlsplit
+
         # Filter out kwargs that are not allowed by the SchemaRegistryClient
         url_args = {k: v for k, v in url_args.items() if k in ALLOWED_ATTRS}
 
+        # The SchemaRegistryClient appends paths to the URL, so leave out the query,
+        # which has been parsed into url_args, and the fragment.
+        split_url = urlsplit(url_args["url"])
+        url_args["url"] = split_url._replace(query="", fragment="").geturl()
+
         with SchemaRegistryClient(url_args) as registry:
             yield ConfluentRegistryClient(registry)
 
-- 
2.43.0


From 4f59fcd7398871e5a055cc3a9ada2c05dafe019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:45 +0000
Subject: [PATCH 64/79] fix: don't replace the account or database of Snowflake
 URLs by query parameters

---
 recap/clients/snowflake.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/clients/snowflake.py b/recap/clients/snowflake.py
index 1e50242..0b12a84 100644
--- a/recap/clients/snowflake.py
+++ b/recap/clients/snowflake.py
@@ -28,7 +28,7 @@ class SnowflakeClient(DbapiClient):
                 snowflake_args["database"] = database
                 snowflake_args["schema"] = schema
 
-        with snowflake.connector.connect(**(snowflake_args | url_args)) as client:
+        with snowflake.connector.connect(**(url_args | snowflake_args)) as client:
             yield SnowflakeClient(client)  # type: ignore
 
     def ls_catalogs(self) -> list[str]:
-- 
2.43.0


From 10cedaf281bcdc40339306dc265b7fa07d929e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:51 +0000
Subject: [PATCH 65/79] fix: don't take the dialect of URLs from query
 parameters

---
 recap/clients/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index e6bcf7b..4db9162 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -141,7 +141,8 @@ def _url_to_dict(url: str) -> dict[str, str]:
     parsed_dict |= {
         key: value
         for key, value in parsed_qs.items()
-        if key == "query" or parsed_dict.get(key) is None
+        if key == "query"
+        or (key not in ("dialect", "driver") and parsed_dict.get(key) is None)
     }
 
     return parsed_dict
-- 
2.43.0


From ef6b19729248a870d47758b8bd389c3ae5cfab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:25 +0000
Subject: [PATCH 66/79] fix: don't replace extra attributes with aliases

---
 recap/types.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 96895de..38ede28 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -782,8 +782,15 @@ def alias_dict(
         if recap_type == alias_type:
             return {"type": alias}
 
-    # Otherwise, recurse on nested type_dicts
-    for key in ["values", "keys", "fields", "types"]:
+    # Otherwise, recurse on nested type_dicts. Types can have extra attributes with
+    # the same names, so only recurse on those that are types.
+    nested_keys = {
+        ListType: ["values"],
+        MapType: ["keys", "values"],
+        StructType: ["fields"],
+        UnionType: ["types"],
+    }
+    for key in nested_keys.get(type(recap_type), []):
         if key in type_dict:
             if isinstance(type_dict[key], list):
                 type_dict[key] = [
-- 
2.43.0


From aeb771b89931f87d0ce1497bc42651c50046f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:23 +0000
Subject: [PATCH 67/79] fix: don't list names whose type couldn't be serialized

---
 recap/storage/registry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index 72e2a44..fcffd3c 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -53,14 +53,15 @@ class RegistryStorage:
             version = (self.latest(name) or 0) + 1
 
         path_without_version = f"{self.root_path}/{quoted_name}"
-        type_dict = to_dict(type_)
+        # Serialize first so that nothing is left of types that can't be stored.
+        type_json = json.dumps(to_dict(type_))
 
         self.fs.mkdirs(path_without_version, exist_ok=True)
 
         # Write in a transaction so that readers never see an incomplete version.
         with self.fs.transaction:
             with self.fs.open(f"{path_without_version}/{version}.json", "w") as f:
-                json.dump(type_dict, f)
+                f.write(type_json)
 
         return version
 
-- 
2.43.0


From 38a9c8961d1c913972a7dd80ef1b53d29cfe05ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:27 +0000
Subject: [PATCH 68/79] fix: restore the Protobuf namespace after a file that
 is rejected

---
 recap/converters/protobuf.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 466f0ca..dd915ea 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -111,20 +111,21 @@ class ProtobufConverter:
         if packages:
             self.namespaces.append(packages[0].name)
 
-        # Now parse messages and enums.
-        for file_element in file.file_elements:
-            if isinstance(file_element, Message):
-                struct_type = self._parse_message(file_element)
-                root_message = root_message or struct_type
-            elif isinstance(file_element, Enum):
-                self._parse_enum(file_element)
+        try:
+            # Now parse messages and enums.
+            for file_element in file.file_elements:
+                if isinstance(file_element, Message):
+                    struct_type = self._parse_message(file_element)
+                    root_message = root_message or struct_type
+                elif isinstance(file_element, Enum):
+                    self._parse_enum(file_element)
+        finally:
+            if packages:
+                self.namespaces.pop()
 
         if root_message is None:
             raise ValueError("Protobuf schema must contain at least one Message")
 
-        if packages:
-            self.namespaces.pop()
-
         return root_message
 
     def _parse_message(self, message: Message) -> StructType:
-- 
2.43.0


From c6aef8a8b1ddb57b099f3b9b731d8c35db3c8b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:02 +0000
Subject: [PATCH 69/79] fix: resolve rooted references to Protobuf types
 without a package

---
 recap/converters/protobuf.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index dd915ea..7ec2e73 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -253,11 +253,14 @@ class ProtobufConverter:
             case _:
                 # Create a ProxyType and hope we have a type alias for this type.
                 # A leading dot means that the type name is fully qualified.
-                alias = (
-                    protobuf_type.removeprefix(".")
-                    if "." in protobuf_type
-                    else f"{self.namespaces[-1]}.{protobuf_type}"
-                )
+                name = protobuf_type.removeprefix(".")
+                if "." in name:
+                    alias = name
+                elif name != protobuf_type:
+                    # The type is defined in a file without a package.
+                    alias = f"{self.namespaces[0]}.{name}"
+                else:
+                    alias = f"{self.namespaces[-1]}.{name}"
                 return ProxyType(alias, self.registry)
 
     def _parse_oneof(self, oneof: OneOf) -> RecapType:
-- 
2.43.0


From 7ae882313e21f61c9393ecdf829289514f75712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 70/79] fix: use empty JSON schema registries that are given

---
 recap/converters/json_schema.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 2d59bd8..5fa3cbb 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -32,8 +32,11 @@ AliasStrategy = Callable[[str], str]
 class JSONSchemaConverter:
     def __init__(self, json_registry: Registry | None = None):
         self.registry = RecapTypeRegistry()
-        self.json_registry = json_registry or Registry(
-            retrieve=JSONSchemaConverter.httpx_retrieve
+        # An empty registry is falsy, but can have its own way to retrieve schemas.
+        self.json_registry = (
+            json_registry
+            if json_registry is not None
+            else Registry(retrieve=JSONSchemaConverter.httpx_retrieve)
         )
 
     def to_recap(
-- 
2.43.0


From 81bce0c97e734bb072a77202897dbf217988cfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:44 +0000
Subject: [PATCH 71/79] fix: read JSON schemas that refer to other documents

---
 recap/converters/json_schema.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 5fa3cbb..16a54d7 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -131,9 +131,8 @@ class JSONSchemaConverter:
                     # type as a normal Recap type with an alias set.
                     retrieved = self.json_registry.get_or_retrieve(urn)
                     resource = retrieved.value
-                    self.json_registry = (
-                        retrieved.registry @ self.json_registry
-                    )  # pyright: ignore[reportGeneralTypeIssues]
+                    # Already contains everything that self.json_registry does.
+                    self.json_registry = retrieved.registry
                     return self._parse(resource.contents, alias_strategy)
             case _:
                 raise ValueError(f"Unsupported JSON schema: {json_schema}")
-- 
2.43.0


From abdd94fee356486852a7ede3f7e86a00181ae25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:50 +0000
Subject: [PATCH 72/79] fix: keep description and default beside JSON schema
 references

---
 recap/converters/json_schema.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 16a54d7..5558c53 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -133,7 +133,11 @@ class JSONSchemaConverter:
                     resource = retrieved.value
                     # Already contains everything that self.json_registry does.
                     self.json_registry = retrieved.registry
-                    return self._parse(resource.contents, alias_strategy)
+                    recap_type = self._parse(resource.contents, alias_strategy)
+                    # The reference can have its own description and default.
+                    recap_type.doc = extra_attrs.pop("doc", recap_type.doc)
+                    recap_type.extra_attrs |= extra_attrs
+                    return recap_type
             case _:
                 raise ValueError(f"Unsupported JSON schema: {json_schema}")
 
-- 
2.43.0


From e2fb0fdebce7d3aed1b4ad368f14b403cef584b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:06 +0000
Subject: [PATCH 73/79] fix: read documents of JSON schema registries that are
 given

---
 recap/converters/json_schema.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 5558c53..19fe936 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -32,6 +32,9 @@ AliasStrategy = Callable[[str], str]
 class JSONSchemaConverter:
     def __init__(self, json_registry: Registry | None = None):
         self.registry = RecapTypeRegistry()
+        # The IDs of the schemas that have been crawled. The JSON registry can
+        # contain others.
+        self.crawled: set[str] = set()
         # An empty registry is falsy, but can have its own way to retrieve schemas.
         self.json_registry = (
             json_registry
@@ -70,6 +73,7 @@ class JSONSchemaConverter:
             resource_id = resource.id()
             assert resource_id is not None, f"$id must be set for {json_schema}"
             self.json_registry = resource @ self.json_registry
+            self.crawled.add(resource_id)
             extra_attrs["alias"] = alias_strategy(resource_id)
 
         match json_schema:
@@ -117,22 +121,24 @@ class JSONSchemaConverter:
             case {"type": "null"}:
                 return NullType(**extra_attrs)
             case {"$ref": str(urn)} | {"$dynamicRef": str(urn)}:
-                try:
-                    # If no KeyError is thrown here, we've already crawled this,
-                    # so we can just return a ProxyType referencing the original.
+                urn = urn.rstrip("#")
+                if urn in self.crawled:
+                    # We've already crawled this, so we can just return a
+                    # ProxyType referencing the original.
                     resource = self.json_registry[urn]
                     assert (
                         resource.id() is not None
                     ), f"$id must be set for {resource.contents}"
                     alias = alias_strategy(str(resource.id()))
                     return ProxyType(alias, self.registry, **extra_attrs)
-                except KeyError:
+                else:
                     # We haven't crawled this type yet, so crawl and define the
                     # type as a normal Recap type with an alias set.
                     retrieved = self.json_registry.get_or_retrieve(urn)
                     resource = retrieved.value
                     # Already contains everything that self.json_registry does.
                     self.json_registry = retrieved.registry
+                    self.crawled.add(urn)
                     recap_type = self._parse(resource.contents, alias_strategy)
                     # The reference can have its own description and default.
                     recap_type.doc = extra_attrs.pop("doc", recap_type.doc)
-- 
2.43.0


From 01bb5cdbe9f24573b90fe1db6e30420c4aecaced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:24 +0000
Subject: [PATCH 74/79] fix: the query of a SQLite URL is not part of the file
 name

---
 recap/clients/sqlite.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 30a2a33..0cd07b2 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -31,7 +31,12 @@ class SQLiteClient:
         import sqlite3
 
         # Strip sqlite:/// URL prefix
-        url_args["database"] = url[len("sqlite:///") :]
+        database = url[len("sqlite:///") :]
+        # The query is not part of the file name, unless the name is a URI with
+        # parameters of its own (sqlite:///file:some.db?mode=ro&uri=true).
+        if "uri" not in url_args:
+            database = database.partition("?")[0]
+        url_args["database"] = database
 
         # Only include kwargs that are valid for PsycoPG2 parse_dsn()
         url_args = {k: v for k, v in url_args.items() if k in SQLITE3_CONNECT_ARGS}
-- 
2.43.0


From 0c5e505ab402fe639e79bd4014db3ad14786f126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:28 +0000
Subject: [PATCH 75/79] fix: numeric options of a SQLite URL are numbers

---
 recap/clients/sqlite.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 0cd07b2..5cc8690 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -18,6 +18,11 @@ SQLITE3_CONNECT_ARGS = {
     "cached_statements",
     "uri",
 }
+SQLITE3_NUMERIC_ARGS = {
+    "timeout": float,
+    "detect_types": int,
+    "cached_statements": int,
+}
 
 
 class SQLiteClient:
@@ -41,6 +46,11 @@ class SQLiteClient:
         # Only include kwargs that are valid for PsycoPG2 parse_dsn()
         url_args = {k: v for k, v in url_args.items() if k in SQLITE3_CONNECT_ARGS}
 
+        # Query parameters are strings, but sqlite3 needs numbers for some
+        for arg, arg_type in SQLITE3_NUMERIC_ARGS.items():
+            if arg in url_args:
+                url_args[arg] = arg_type(url_args[arg])
+
         with sqlite3.connect(**url_args) as client:
             yield SQLiteClient(client)  # type: ignore
 
-- 
2.43.0


From 610d49bd4ab75952aac64e732ac807b9865cf24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:13 +0000
Subject: [PATCH 76/79] fix: read optional lists of types like optional unions

---
 recap/types.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 38ede28..327d216 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -408,6 +408,10 @@ def from_dict(
         type_dict.get("type") is not None
     ), "Type dictionary must have a 'type' field."
 
+    # A list as the type is a union, also if it's optional
+    if isinstance(type_dict["type"], list):
+        type_dict |= {"type": "union", "types": type_dict["type"]}
+
     # Support optional=True syntactic sugar
     if type_dict.pop("optional", False):
         # Special handling for reserved words in struct fields
@@ -430,13 +434,7 @@ def from_dict(
     registry = registry or RecapTypeRegistry()
     type_name = type_dict.pop("type")
 
-    if isinstance(type_name, list):
-        # If type is a list, handle as a union
-        recap_type = UnionType(
-            [from_dict(t, registry) for t in type_name],
-            **type_dict,
-        )
-    elif isinstance(type_name, str):
+    if isinstance(type_name, str):
         match type_name:
             case "null":
                 recap_type = NullType(**type_dict)
-- 
2.43.0


From 522bde4c809f1e4c3f9e1dd601d4dcaacbc9e491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:17 +0000
Subject: [PATCH 77/79] fix: don't add null to optional unions that spell it
 out

---
 recap/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/types.py b/recap/types.py
index 327d216..5099cc0 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -425,7 +425,7 @@ def from_dict(
                 "types": ["null", type_dict],
                 "doc": doc,
             }
-        if "null" not in type_dict["types"]:
+        if not any(t in ("null", {"type": "null"}) for t in type_dict["types"]):
             type_dict["types"] = ["null"] + type_dict["types"]
         if name is not None:
             type_dict["name"] = name
-- 
2.43.0


From c72095f8438084fe1e15d68fdeacdeb8bf7b64df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:22 +0000
Subject: [PATCH 78/79] fix: read rooted names of well-known Protobuf types

---
 recap/converters/protobuf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 7ec2e73..c171cff 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -228,7 +228,7 @@ class ProtobufConverter:
             # Technically, we should honor `import google/protobuf/*.proto` and
             # make sure the protos match what's expected, but assuming they match
             # is fine for now.
-            case "google.protobuf.Timestamp":
+            case "google.protobuf.Timestamp" | ".google.protobuf.Timestamp":
                 # https://protobuf.dev/reference/protobuf/google.protobuf/#timestamp
                 # Note: Some protobuf values might overrun this since they support
                 # from 0001-01-01T00:00:00Z to 9999-12-31T23:59:59.999999999Z.
@@ -239,7 +239,7 @@ class ProtobufConverter:
                     unit="nanosecond",
                     timezone="UTC",
                 )
-            case "google.protobuf.Duration":
+            case "google.protobuf.Duration" | ".google.protobuf.Duration":
                 # https://protobuf.dev/reference/protobuf/google.protobuf/#duration
                 # Note: Some protobuf values might overrun this since they support
                 # int64 seconds and int32 nanoseconds.
@@ -248,7 +248,7 @@ class ProtobufConverter:
                     logical="build.recap.Duration",
                     unit="nanosecond",
                 )
-            case "google.protobuf.NullValue":
+            case "google.protobuf.NullValue" | ".google.protobuf.NullValue":
                 return NullType()
             case _:
                 # Create a ProxyType and hope we have a type alias for this type.
-- 
2.43.0


From 050c2d90a8c705f6f12d8c97ee8d16f7b1f61f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:28 +0000
Subject: [PATCH 79/79] fix: keywords of a JSON schema with a list of types
 apply to its types

---
 recap/converters/json_schema.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 19fe936..f205592 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -80,7 +80,20 @@ class JSONSchemaConverter:
             # Special handling for "type" defined as a list of strings like
             # {"type": ["string", "boolean"]}
             case {"type": list(type_list)}:
-                types = [self._parse(s, alias_strategy) for s in type_list]
+                # The other keywords ("format", "items", ...) apply to each type
+                # they're meant for.
+                others = {
+                    key: value
+                    for key, value in json_schema.items()
+                    if key not in ("$id", "description", "default")
+                }
+                types = [
+                    self._parse(
+                        others | {"type": s} if isinstance(s, str) else s,
+                        alias_strategy,
+                    )
+                    for s in type_list
+                ]
                 return UnionType(types, **extra_attrs)
             case {"type": "object", "properties": properties}:
                 fields = []
-- 
2.43.0

