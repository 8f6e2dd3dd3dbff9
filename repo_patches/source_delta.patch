From 72d8842778368a788322e59b98aac315cf8fd057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 01/73] fix: check falsy default values against the allowed
 list

A default of 0, False or '' skipped the membership check, so a model whose
default is not one of its allowed values was accepted.
---
 src/vss_tools/vspec/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index ce38f99..693da15 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -222,7 +222,7 @@ class VSSDataDatatype(VSSData):
         Checks that the given default values
         are in the allowed list
         """
-        if self.default and self.allowed:
+        if self.default is not None and self.allowed:
             values = self.default
             if not isinstance(self.default, list):
                 values = [self.default]
-- 
2.43.0


From 83169941df8bc93b4c4cee647618844d730f10d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 02/73] fix: an instance override only overrides the attributes
 it states

Merging a complete node stated on an expanded instance path also applied the
model defaults of attributes it does not state (instantiate, delete, ...), so
for example a child excluded from instantiation got instantiated below the
instance.
---
 src/vss_tools/vspec/tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index a6775bc..b19ebb5 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -63,6 +63,8 @@ class VSSNode(Node):  # type: ignore[misc]
     def __init__(self, name: str, fqn: str | None, data: dict[str, Any], **kwargs: Any) -> None:
         super().__init__(name, **kwargs)
         self.data = get_vss_raw(data, fqn)
+        # Attributes that have been stated, i.e. are no model defaults
+        self.stated = set(data)
         self.uuid: str | None = None
 
     def copy(self) -> VSSNode:
@@ -74,6 +76,7 @@ class VSSNode(Node):  # type: ignore[misc]
                 exclude=set(["fqn"]),
             ),
         )
+        node.stated = set(self.stated)
         for c in self.children:
             cp = c.copy()
             cp.parent = node
@@ -129,9 +132,11 @@ class VSSNode(Node):  # type: ignore[misc]
 
         log.debug(f"{self.get_fqn()}, merging with='{other.get_fqn()}'")
         self_data = self.data.as_dict(exclude_fields=["fqn"])
-        other_data = other.data.as_dict(exclude_fields=["fqn"])
+        # Only what the other node states has priority, not its defaults
+        other_data = {k: v for k, v in other.data.as_dict(exclude_fields=["fqn"]).items() if k in other.stated}
 
         deep_update(self_data, other_data)
+        self.stated |= other.stated
         self.data = get_vss_raw(self_data, self.get_fqn())
 
         child: VSSNode
-- 
2.43.0


From 865dabd532727e07b4230a11b2de6a5ec077d5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 03/73] fix: do not accept booleans as values of numeric
 datatypes

isinstance(True, int) made 'default: true' and 'allowed: [true]' valid for
every integer and floating point datatype.
---
 src/vss_tools/vspec/datatypes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/datatypes.py b/src/vss_tools/vspec/datatypes.py
index e3ed5e9..a6c76b4 100644
--- a/src/vss_tools/vspec/datatypes.py
+++ b/src/vss_tools/vspec/datatypes.py
@@ -26,7 +26,8 @@ def is_xintx(value: Any, signed: bool, bits: int):
         values = value
 
     for v in values:
-        if not isinstance(v, int):
+        # bool is a subclass of int, but no integer value
+        if not isinstance(v, int) or isinstance(v, bool):
             return False
         if not signed and v < 0:
             return False
@@ -76,7 +77,8 @@ def is_x(value: Any, c: type) -> bool:
     values = [value]
     if isinstance(value, list):
         values = value
-    return all([isinstance(v, c) for v in values])
+    # bool is a subclass of int, but only a value of boolean
+    return all([isinstance(v, c) and (c is bool or not isinstance(v, bool)) for v in values])
 
 
 def is_bool(value: Any) -> bool:
-- 
2.43.0


From 9ba1a7d4a7863b3ed338e65ebf8e30792dead12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 04/73] fix: reject a constUID followed by a line break

'$' also matches before a trailing newline.
---
 src/vss_tools/vspec/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index 693da15..9ba85c9 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -119,8 +119,8 @@ class VSSData(VSSRaw):
     def check_const_uid_format(cls, v: str | None) -> str | None:
         if v is None:
             return v
-        pattern = r"^0x[0-9A-Fa-f]{8}$"
-        assert bool(re.match(pattern, v)), f"'{v}' is not a valid 'constUID'"
+        pattern = r"0x[0-9A-Fa-f]{8}"
+        assert bool(re.fullmatch(pattern, v)), f"'{v}' is not a valid 'constUID'"
         return v
 
 
-- 
2.43.0


From 91869e1cc5ccf3c305056cb1a1349df14e037348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 05/73] fix: honour the documented spelling 'allowed_datatypes'
 in unit files

FAQ.md documents the key with an underscore. It was silently ignored, and the
unit then permitted no datatype at all.
---
 src/vss_tools/vspec/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index 9ba85c9..17a0bbe 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -147,6 +147,9 @@ class VSSDataBranch(VSSData):
 
 
 class VSSUnit(BaseModel):
+    # 'allowed_datatypes' is the documented spelling (FAQ.md), 'allowed-datatypes' the one of the standard catalog
+    model_config = ConfigDict(populate_by_name=True)
+
     definition: str
     unit: str | None
     quantity: str
-- 
2.43.0


From fcda31b2e40f15c97bf8b5b57a124b61b3894e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 06/73] fix: resolve short struct names by namespace, not by
 text prefix

A struct could not be referenced by its short name from a struct whose name
starts with the same text (S from SX), was visible below any path starting
with the same text, and if several namespaces declare the same short name the
result depended on the iteration order of a set.
---
 src/vss_tools/vspec/datatypes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/datatypes.py b/src/vss_tools/vspec/datatypes.py
index a6c76b4..9734564 100644
--- a/src/vss_tools/vspec/datatypes.py
+++ b/src/vss_tools/vspec/datatypes.py
@@ -240,16 +240,17 @@ def get_fqn_namespaced_datatypes(fqn: str | None = None) -> dict[str, str]:
     if not fqn:
         return {}
     fqn_namespaced_datatypes = {}
-    for t in dynamic_datatypes:
+    # Sorted by depth: the same name in a closer namespace has priority
+    for t in sorted(dynamic_datatypes, key=lambda t: (t.count("."), t)):
         # This excludes referencing the own struct as a datatype
-        if fqn.startswith(t):
+        if f"{fqn}.".startswith(f"{t}."):
             continue
 
         # fqn: Types.A.B.C.x_property
         # t: Types.A.B.D
-        # We are checking whether fqn starts with Types.A.B
+        # We are checking whether fqn is located below Types.A.B
         # in this case we add {D: Types.A.B.D}
-        if fqn.startswith(".".join(t.split(".")[:-1])):
+        if fqn.startswith(".".join(t.split(".")[:-1] + [""])):
             fqn_namespaced_datatypes[(t.split(".")[-1])] = t
 
     if fqn_namespaced_datatypes:
-- 
2.43.0


From 6b34f9a293105fd400b0ed2e8cba5a5ce49ed989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 07/73] fix: merge later type files into the earlier ones

docs/vspec.md promises that additional type files are merged like overlays and
may redefine types. Restated nodes of a later file were silently ignored.
---
 src/vss_tools/vspec/main.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/main.py b/src/vss_tools/vspec/main.py
index 71945a6..6088223 100644
--- a/src/vss_tools/vspec/main.py
+++ b/src/vss_tools/vspec/main.py
@@ -119,10 +119,10 @@ def get_types_root(types: tuple[Path, ...], include_dirs: list[Path]) -> VSSNode
             log.error(f"Types model has orphans\n{orphans}")
             exit(1)
         if types_root:
-            node: VSSNode
-            for node in PreOrderIter(root):
-                if not types_root.connect(node.get_fqn(), node):
-                    raise MultipleTypeTreesException()
+            if types_root.name != root.name:
+                raise MultipleTypeTreesException()
+            # Like an overlay, a later file has priority
+            types_root.merge(root)
         else:
             types_root = root
 
-- 
2.43.0


From bf382a414cfe850ffbc83923d2b4cf688698b442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 08/73] fix: filter extended attributes on every node of the
 JSON export

The attribute filter was applied to the root node only, all other nodes showed
every extended attribute, contrary to docs/vspec.md (only those given by '-e'
unless --extend-all-attributes is set).
---
 src/vss_tools/vspec/vssexporters/vss2json.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2json.py b/src/vss_tools/vspec/vssexporters/vss2json.py
index b05d564..d3eaab3 100644
--- a/src/vss_tools/vspec/vssexporters/vss2json.py
+++ b/src/vss_tools/vspec/vssexporters/vss2json.py
@@ -27,7 +27,7 @@ def get_data(node: VSSNode, with_extra_attributes: bool = True, extended_attribu
     if len(node.children) > 0:
         data["children"] = {}
     for child in node.children:
-        data["children"][child.name] = get_data(child)
+        data["children"][child.name] = get_data(child, with_extra_attributes, extended_attributes)
     return data
 
 
@@ -88,7 +88,9 @@ def cli(
     signals_data = {tree.name: get_data(tree, extend_all_attributes, extended_attributes)}
 
     if datatype_tree:
-        types_data: dict[str, Any] = {datatype_tree.name: get_data(datatype_tree, extend_all_attributes)}
+        types_data: dict[str, Any] = {
+            datatype_tree.name: get_data(datatype_tree, extend_all_attributes, extended_attributes)
+        }
         if not types_output:
             log.info("Adding custom data types to signal dictionary")
             signals_data["ComplexDataTypes"] = types_data
-- 
2.43.0


From ab1f886e754cd9e163801311c13bff3513749baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 09/73] fix: keep NEL and '#include' text intact in the YAML
 export

---
 src/vss_tools/vspec/vssexporters/vss2yaml.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2yaml.py b/src/vss_tools/vspec/vssexporters/vss2yaml.py
index 608cdb4..e11a7ca 100644
--- a/src/vss_tools/vspec/vssexporters/vss2yaml.py
+++ b/src/vss_tools/vspec/vssexporters/vss2yaml.py
@@ -47,6 +47,16 @@ class NoAliasDumper(yaml.SafeDumper):
             super().write_line_break()
 
 
+def represent_str(dumper, data):
+    # An unescaped next line character (NEL) is read back as a blank, and a line that
+    # starts with '#include' as a statement. Double quoted text has neither.
+    style = '"' if "\x85" in data or "#include" in data else None
+    return dumper.represent_scalar("tag:yaml.org,2002:str", data, style=style)
+
+
+NoAliasDumper.add_representer(str, represent_str)
+
+
 @click.command()
 @clo.vspec_opt
 @clo.output_required_opt
-- 
2.43.0


From b33054deb4020308bdc6102e9843cac1695f709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:46 +0000
Subject: [PATCH 10/73] fix: export falsy defaults to the JSON schema

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index 8c67d09..2e2d491 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -80,7 +80,7 @@ def export_node(
         json_dict[node.name]["enum"] = allowed
 
     default = getattr(data, "default", None)
-    if default:
+    if default is not None:
         json_dict[node.name]["default"] = default
 
     if isinstance(data, VSSDataStruct):
-- 
2.43.0


From 87e428febca3a5ca80e72472decf90f91c4627fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:46 +0000
Subject: [PATCH 11/73] fix: export only requested extended attributes to the
 JSON schema

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index 2e2d491..f33fb37 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -56,6 +56,7 @@ def export_node(
     all_extended_attributes: bool,
     no_additional_properties: bool,
     require_all_properties: bool,
+    extended_attributes: tuple[str, ...] = (),
 ):
     """Preparing nodes for JSON schema output."""
     # keyword with X- sign are left for extensions and they are not part of official JSON schema
@@ -111,8 +112,10 @@ def export_node(
         if print_uuid:
             json_dict[node.name]["x-uuid"] = node.uuid
 
-    for field in data.get_extra_attributes():
-        json_dict[node.name][field] = getattr(data, field)
+    extra_attributes = data.get_extra_attributes()
+    for field, value in data.as_dict(all_extended_attributes, extended_attributes=extended_attributes).items():
+        if field in extra_attributes:
+            json_dict[node.name][field] = value
 
     # Generate child nodes
     if isinstance(data, VSSDataBranch) or isinstance(node.data, VSSDataStruct):
@@ -129,6 +132,7 @@ def export_node(
                 all_extended_attributes,
                 no_additional_properties,
                 require_all_properties,
+                extended_attributes,
             )
 
 
@@ -205,6 +209,7 @@ def cli(
         extend_all_attributes,
         no_additional_properties,
         require_all_properties,
+        extended_attributes,
     )
 
     # Add data types to the schema
@@ -217,6 +222,7 @@ def cli(
             extend_all_attributes,
             no_additional_properties,
             require_all_properties,
+            extended_attributes,
         )
         if extend_all_attributes:
             signals_json_schema["x-ComplexDataTypes"] = data_types_json_schema
-- 
2.43.0


From 3679c2dec0e34a01db986ce70daaab5ee2fa8486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:46 +0000
Subject: [PATCH 12/73] fix: do not crash when all attributes of a model with
 types are exported to the JSON schema

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index f33fb37..4484347 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -224,8 +224,6 @@ def cli(
             require_all_properties,
             extended_attributes,
         )
-        if extend_all_attributes:
-            signals_json_schema["x-ComplexDataTypes"] = data_types_json_schema
 
     # VSS models only have one root, so there should only be one
     # key in the dict
@@ -239,5 +237,7 @@ def cli(
         "type": "object",
         **signals_json_schema,
     }
+    if datatype_tree is not None and extend_all_attributes:
+        json_schema["x-ComplexDataTypes"] = data_types_json_schema
     with open(output, "w", encoding="utf-8") as output_file:
         json.dump(json_schema, output_file, indent=indent, sort_keys=False)
-- 
2.43.0


From 10ea8dfc7b800d70ed276439a5b6a0535c1f90c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:46 +0000
Subject: [PATCH 13/73] fix: export signals of struct and numeric datatypes to
 the JSON schema

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index 4484347..81db3f3 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -17,6 +17,7 @@ import rich_click as click
 
 import vss_tools.vspec.cli_options as clo
 from vss_tools import log
+from vss_tools.vspec.datatypes import is_array
 from vss_tools.vspec.main import get_trees
 from vss_tools.vspec.model import VSSDataBranch, VSSDataDatatype, VSSDataStruct
 from vss_tools.vspec.tree import VSSNode
@@ -34,6 +35,7 @@ type_map = {
     "float": "number",
     "double": "number",
     "string": "string",
+    "numeric": "number",
     "int8[]": "array",
     "uint8[]": "array",
     "int16[]": "array",
@@ -46,6 +48,7 @@ type_map = {
     "float[]": "array",
     "double[]": "array",
     "string[]": "array",
+    "numeric[]": "array",
 }
 
 
@@ -66,7 +69,11 @@ def export_node(
     }
 
     if isinstance(data, VSSDataDatatype):
-        json_dict[node.name]["type"] = type_map[data.datatype]
+        if data.datatype in type_map:
+            json_dict[node.name]["type"] = type_map[data.datatype]
+        else:
+            # user defined struct
+            json_dict[node.name]["type"] = "array" if is_array(data.datatype) else "object"
 
     min = getattr(data, "min", None)
     if min is not None:
-- 
2.43.0


From 99e1d562a7b221976e13db50ab34e58e1c0f85fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:46 +0000
Subject: [PATCH 14/73] fix: apply constraints of arrays to their elements in
 the JSON schema

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index 81db3f3..934969d 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -75,17 +75,25 @@ def export_node(
             # user defined struct
             json_dict[node.name]["type"] = "array" if is_array(data.datatype) else "object"
 
+    # Constraints of an array hold for each of its elements
+    constraints: dict[str, Any] = {}
     min = getattr(data, "min", None)
     if min is not None:
-        json_dict[node.name]["minimum"] = min
+        constraints["minimum"] = min
 
     max = getattr(data, "max", None)
     if max is not None:
-        json_dict[node.name]["maximum"] = max
+        constraints["maximum"] = max
 
     allowed = getattr(data, "allowed", None)
     if allowed:
-        json_dict[node.name]["enum"] = allowed
+        constraints["enum"] = allowed
+
+    if constraints:
+        if json_dict[node.name]["type"] == "array":
+            json_dict[node.name]["items"] = constraints
+        else:
+            json_dict[node.name].update(constraints)
 
     default = getattr(data, "default", None)
     if default is not None:
-- 
2.43.0


From b4918ce7a789822541253441f5b1c9b76ee4df4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:46 +0000
Subject: [PATCH 15/73] fix: initialise and dimension the node data of the C
 binary parser

---
 binary/c_parser/cparserlib.c | 10 ++++++----
 binary/c_parser/cparserlib.h |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 73617f3..7ecff37 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -139,6 +139,7 @@ uint8_t validateToUint8(char* validate) {
 }
 
 void validateToString(uint8_t validate, char *validation) {
+    validation[0] = 0;
     if (validate%10 == 1) {
         strcpy(validation, "write-only");
     } else if (validate%10 == 2) {
@@ -407,13 +408,14 @@ void populateNode(node_t* thisNode) {
 		char* allowedStr = (char*) malloc(sizeof(char)*(allowedLen+1));
 		ret = fread(allowedStr, sizeof(char)*allowedLen, 1, treeFp);
 		allowedStr[allowedLen] = '\0';
- 	        thisNode->allowed = (uint8_t)countAllowedElements(allowedStr);
+ 	        thisNode->allowed = (uint16_t)countAllowedElements(allowedStr);
 	        if (thisNode->allowed > 0) {
 		        thisNode->allowedDef = (allowed_t*) malloc(sizeof(allowed_t)*(thisNode->allowed));
                 }
 	        for (int i = 0 ; i < thisNode->allowed ; i++) {
 	            strcpy(thisNode->allowedDef[i], extractAllowedElement(allowedStr, i));
 	        }
+	        free(allowedStr);
 	} else {
 	    thisNode->allowed = 0;
 	}
@@ -428,7 +430,7 @@ void populateNode(node_t* thisNode) {
 	uint8_t validateLen;
 	ret = fread(&validateLen, sizeof(uint8_t), 1, treeFp);
 	if (validateLen > 0) {
-		char validate[50];
+		char validate[UINT8_MAX+1];
 		ret = fread(validate, sizeof(char)*validateLen, 1, treeFp);
 		validate[validateLen] = '\0';
 		thisNode->validate = validateToUint8(validate);
@@ -441,7 +443,7 @@ void populateNode(node_t* thisNode) {
 //	printf("populateNode: %s\n", thisNode->name);
 }
 
-int calculatAllowedStrLen(uint8_t alloweds, allowed_t* allowedDef) {
+int calculatAllowedStrLen(uint16_t alloweds, allowed_t* allowedDef) {
     int strLen = 0;
     for (int i = 0 ; i < alloweds ; i++) {
         strLen += strlen((char*)(allowedDef[i])) + 2;
@@ -522,7 +524,7 @@ void writeNode(struct node_t* node) {
 }
 
 struct node_t* traverseAndReadNode(struct node_t* parentNode) {
-	node_t* thisNode = (node_t*) malloc(sizeof(node_t));
+	node_t* thisNode = (node_t*) calloc(1, sizeof(node_t));
 	updateReadMetadata(true);
 	populateNode(thisNode);
 
diff --git a/binary/c_parser/cparserlib.h b/binary/c_parser/cparserlib.h
index 782d02c..2d4e00d 100644
--- a/binary/c_parser/cparserlib.h
+++ b/binary/c_parser/cparserlib.h
@@ -12,7 +12,7 @@
 #define UNKNOWN 0
 typedef enum {SENSOR=1, ACTUATOR, ATTRIBUTE, BRANCH, STRUCT, PROPERTY } nodeTypes_t;
 
-#define MAXALLOWEDELEMENTLEN 64
+#define MAXALLOWEDELEMENTLEN 256  // an element has up to 255 bytes
 typedef char allowed_t[MAXALLOWEDELEMENTLEN];
 
 typedef struct node_t {
@@ -31,7 +31,7 @@ typedef struct node_t {
     char* min;
     uint8_t unitLen;
     char* unit;
-    uint8_t allowed;
+    uint16_t allowed;
     allowed_t *allowedDef;
     uint8_t defaultLen;
     char* defaultAllowed;
-- 
2.43.0


From 01d2bf672a923667363544e0f8f4a1d0482a05c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 16/73] fix: keep path handling of the C binary parser inside
 its buffers

---
 binary/c_parser/cparserlib.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 7ecff37..f53d983 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -171,10 +171,13 @@ void incDepth(long thisNode, SearchContext_t* context) {
 	context->currentDepth++;
 }
 
-char getPathSegmentBuf[100];  // modified by getPathSegment() only
+path_t getPathSegmentBuf;  // modified by getPathSegment() only
 char* getPathSegment(int offset, SearchContext_t* context) {
 	char* frontDelimiter = &(context->searchPath[0]);
 	char* endDelimiter;
+	if (context->searchPath[0] == 0) {
+		return "";
+	}
 	for (int i = 1 ; i < context->currentDepth + offset ; i++) {
 		frontDelimiter = strchr(frontDelimiter+1, '.');
 		if (frontDelimiter == NULL) {
@@ -192,6 +195,9 @@ char* getPathSegment(int offset, SearchContext_t* context) {
 	if (frontDelimiter[0] == '.') {
 		frontDelimiter++;
 	}
+	if (endDelimiter-frontDelimiter >= sizeof(getPathSegmentBuf)) {
+		return "";  // longer than any node name
+	}
 	strncpy(getPathSegmentBuf, frontDelimiter, (int)(endDelimiter-frontDelimiter));
 	getPathSegmentBuf[(int)(endDelimiter-frontDelimiter)] = 0;
 	return getPathSegmentBuf;
@@ -549,6 +555,9 @@ void traverseAndWriteNode(struct node_t* node) {
 int traverseNode(long thisNode, SearchContext_t* context) {
 	int speculationSucceded = 0;
 
+	if (strlen(context->matchPath) + 1 + strlen(VSSgetName(thisNode)) >= sizeof(path_t)) {
+		return 0;  // the path does not fit into a response
+	}
 	incDepth(thisNode, context);
 	if (compareNodeName(VSSgetName(thisNode), getPathSegment(0, context)) == true) {
 		bool done;
-- 
2.43.0


From fa803cb5d6020ab8ee0b331c044297e0005c94a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:51 +0000
Subject: [PATCH 17/73] fix: remove exactly the failed wildcard matches from
 binary tree searches

---
 binary/c_parser/cparserlib.c         | 22 +++++-----------------
 binary/go_parser/parserlib/parser.go | 22 +++++-----------------
 2 files changed, 10 insertions(+), 34 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index f53d983..fa2467f 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -41,7 +41,6 @@ typedef struct SearchContext_t {
 	path_t matchPath;
 	int currentDepth;  // depth in tree from rootNode, and also depth (in segments) in searchPath
 	int speculationIndex;  // inc/dec when pathsegment in focus is wildcard
-	int speculativeMatches[20];  // inc when matching node is saved
 	int maxValidation;
 	int numOfMatches;
 	searchData_t* searchData;
@@ -272,9 +271,6 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 			}
 		}
 		context->numOfMatches++;
-		if (context->speculationIndex >= 0) {
-			context->speculativeMatches[context->speculationIndex]++;
-		}
 	}
 	if (VSSgetNumOfChildren(thisNode) == 0 || context->currentDepth == context->maxDepth || isEndOfScope(context) == true) {
 		*done = true;
@@ -290,12 +286,9 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 /**
  * decDepth() shall reverse speculative wildcard matches that have failed, and also decrement currentDepth.
  **/
-void decDepth(int speculationSucceded, SearchContext_t* context) {
-	if (context->speculationIndex >= 0 && context->speculativeMatches[context->speculationIndex] > 0) {
-		if (speculationSucceded == 0) {  // it failed so remove a saved match
-			context->numOfMatches--;
-			context->speculativeMatches[context->speculationIndex]--;
-		}
+void decDepth(int speculationSucceded, int matchesBefore, SearchContext_t* context) {
+	if (context->speculationIndex >= 0 && speculationSucceded == 0) {  // it failed so remove what it saved
+		context->numOfMatches = matchesBefore;
 	}
 	if (strcmp(getPathSegment(0, context), "*") == 0) {
 		context->speculationIndex--;
@@ -554,6 +547,7 @@ void traverseAndWriteNode(struct node_t* node) {
 
 int traverseNode(long thisNode, SearchContext_t* context) {
 	int speculationSucceded = 0;
+	int matchesBefore = context->numOfMatches;
 
 	if (strlen(context->matchPath) + 1 + strlen(VSSgetName(thisNode)) >= sizeof(path_t)) {
 		return 0;  // the path does not fit into a response
@@ -572,7 +566,7 @@ int traverseNode(long thisNode, SearchContext_t* context) {
 			}
 		}
 	}
-	decDepth(speculationSucceded, context);
+	decDepth(speculationSucceded, matchesBefore, context);
 	return speculationSucceded;
 }
 
@@ -600,9 +594,6 @@ void initContext(SearchContext_t* context, char* searchPath, long rootNode, int
 	context->matchPath[0] = 0;
 	context->numOfMatches = 0;
 	context->speculationIndex = -1;
-	for (int i = 0 ; i < 20 ; i++) {
-		context->speculativeMatches[i] = 0;
-	}
 }
 
 //used for VSSGetLeafNodeList
@@ -628,9 +619,6 @@ void initContext_LNL(SearchContext_t* context, char* searchPath, long rootNode,
 	context->matchPath[0] = 0;
 	context->numOfMatches = 0;
 	context->speculationIndex = -1;
-	for (int i = 0 ; i < 20 ; i++) {
-		context->speculativeMatches[i] = 0;
-	}
 }
 
 long VSSReadTree(char* filePath) {
diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index 066f55e..4c98bc8 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -44,7 +44,6 @@ type SearchContext_t struct {
 	MatchPath string
 	CurrentDepth int  // depth in tree from rootNode, and also depth (in segments) in searchPath
 	SpeculationIndex int  // inc/dec when pathsegment in focus is wildcard
-	SpeculativeMatches [20]int  // inc when matching node is saved
 	MaxValidation int
 	NumOfMatches int
 	SearchData []SearchData_t
@@ -171,6 +170,7 @@ func traverseAndWriteNode(node *def.Node_t) {
 
 func traverseNode(thisNode *def.Node_t, context *SearchContext_t) int {
 	speculationSucceded := 0
+	matchesBefore := context.NumOfMatches
 
 	incDepth(thisNode, context)
 //	fmt.Printf("before compareNodeName():VSSnodename=%s, pathnodename=%s\n", VSSgetName(thisNode), getPathSegment(0, context))
@@ -187,7 +187,7 @@ func traverseNode(thisNode *def.Node_t, context *SearchContext_t) int {
 			}
 		}
 	}
-	decDepth(speculationSucceded, context)
+	decDepth(speculationSucceded, matchesBefore, context)
 	return speculationSucceded
 }
 
@@ -223,9 +223,6 @@ func saveMatchingNode(thisNode *def.Node_t, context *SearchContext_t, done *bool
 			}
 		}
 		context.NumOfMatches++
-		if (context.SpeculationIndex >= 0) {
-			context.SpeculativeMatches[context.SpeculationIndex]++
-		}
 	}
 	if (VSSgetNumOfChildren(thisNode) == 0 || context.CurrentDepth == context.MaxDepth  || isEndOfScope(context) == true) {
 		*done = true
@@ -304,13 +301,10 @@ func incDepth(thisNode *def.Node_t, context *SearchContext_t) {
 /**
  * decDepth() shall reverse speculative wildcard matches that have failed, and also decrement currentDepth.
  **/
-func decDepth(speculationSucceded int, context *SearchContext_t) {
+func decDepth(speculationSucceded int, matchesBefore int, context *SearchContext_t) {
 	//fmt.Printf("decDepth():speculationSucceded=%d\n", speculationSucceded)
-	if (context.SpeculationIndex >= 0 && context.SpeculativeMatches[context.SpeculationIndex] > 0) {
-		if (speculationSucceded == 0) {  // it failed so remove a saved match
-			context.NumOfMatches--
-			context.SpeculativeMatches[context.SpeculationIndex]--
-		}
+	if (context.SpeculationIndex >= 0 && speculationSucceded == 0) {  // it failed so remove what it saved
+		context.NumOfMatches = matchesBefore
 	}
 	if (getPathSegment(0, context) == "*") {
 		context.SpeculationIndex--
@@ -525,9 +519,6 @@ func initContext(context *SearchContext_t, searchPath string, rootNode *def.Node
 	context.MatchPath = ""
 	context.NumOfMatches = 0
 	context.SpeculationIndex = -1
-	for i := 0 ; i < 20 ; i++ {
-		context.SpeculativeMatches[i] = 0
-	}
 }
 
 func initContext_LNL(context *SearchContext_t, searchPath string, rootNode *def.Node_t, anyDepth bool, leafNodesOnly bool, listSize int, noScopeList []string) {
@@ -552,9 +543,6 @@ func initContext_LNL(context *SearchContext_t, searchPath string, rootNode *def.
 	context.MatchPath = ""
 	context.NumOfMatches = 0
 	context.SpeculationIndex = -1
-	for i := 0 ; i < 20 ; i++ {
-		context.SpeculativeMatches[i] = 0
-	}
 }
 
 func VSSsearchNodes(searchPath string, rootNode *def.Node_t, maxFound int, anyDepth bool, leafNodesOnly bool, listSize int, noScopeList []string, validation *int) ([]SearchData_t, int) {
-- 
2.43.0


From a4e2820b2534d5d2bcd27740344ec2090dbb6d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:52 +0000
Subject: [PATCH 18/73] fix: do not find a leaf by a path that continues below
 it

---
 binary/c_parser/cparserlib.c         | 3 ++-
 binary/go_parser/parserlib/parser.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index fa2467f..10ac3ff 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -243,7 +243,8 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 		context->speculationIndex++;
 	}
 	context->maxValidation = getMaxValidation(VSSgetValidation(thisNode), context->maxValidation);
-	if (VSSgetType(thisNode) != BRANCH && VSSgetType(thisNode) != STRUCT || context->leafNodesOnly == false) {
+	bool isLeaf = VSSgetType(thisNode) != BRANCH && VSSgetType(thisNode) != STRUCT;
+	if ((isLeaf && context->currentDepth >= countSegments(context->searchPath)) || context->leafNodesOnly == false) {
 		if ( isGetLeafNodeList == false && isGetUuidList == false) {
 			strcpy(context->searchData[context->numOfMatches].responsePaths, context->matchPath);
 			context->searchData[context->numOfMatches].foundNodeHandles = thisNode;
diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index 4c98bc8..4b6d073 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -196,7 +196,8 @@ func saveMatchingNode(thisNode *def.Node_t, context *SearchContext_t, done *bool
 		context.SpeculationIndex++
 	}
 	context.MaxValidation = getMaxValidation(VSSgetValidation(thisNode), context.MaxValidation)
-	if (VSSgetType(thisNode) != def.BRANCH  && VSSgetType(thisNode) != def.STRUCT || context.LeafNodesOnly == false) {
+	isLeaf := VSSgetType(thisNode) != def.BRANCH  && VSSgetType(thisNode) != def.STRUCT
+	if ((isLeaf && context.CurrentDepth >= countSegments(context.SearchPath)) || context.LeafNodesOnly == false) {
 		if ( isGetLeafNodeList == false && isGetUuidList == false) {
 			context.SearchData[context.NumOfMatches].NodePath = context.MatchPath
 			context.SearchData[context.NumOfMatches].NodeHandle = thisNode
-- 
2.43.0


From eb334d3a9c53911876dd51fa9d842d8dcd07cd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:52 +0000
Subject: [PATCH 19/73] fix: stop binary tree searches at the maximum number of
 matches

---
 binary/c_parser/cparserlib.c         | 4 ++++
 binary/go_parser/parserlib/parser.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 10ac3ff..8d9cdcd 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -246,6 +246,10 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 	bool isLeaf = VSSgetType(thisNode) != BRANCH && VSSgetType(thisNode) != STRUCT;
 	if ((isLeaf && context->currentDepth >= countSegments(context->searchPath)) || context->leafNodesOnly == false) {
 		if ( isGetLeafNodeList == false && isGetUuidList == false) {
+			if (context->numOfMatches >= context->maxFound) {
+				*done = true;
+				return 0;
+			}
 			strcpy(context->searchData[context->numOfMatches].responsePaths, context->matchPath);
 			context->searchData[context->numOfMatches].foundNodeHandles = thisNode;
 		} else {
diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index 4b6d073..3a8d713 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -199,6 +199,10 @@ func saveMatchingNode(thisNode *def.Node_t, context *SearchContext_t, done *bool
 	isLeaf := VSSgetType(thisNode) != def.BRANCH  && VSSgetType(thisNode) != def.STRUCT
 	if ((isLeaf && context.CurrentDepth >= countSegments(context.SearchPath)) || context.LeafNodesOnly == false) {
 		if ( isGetLeafNodeList == false && isGetUuidList == false) {
+			if (context.NumOfMatches >= context.MaxFound) {
+				*done = true
+				return 0
+			}
 			context.SearchData[context.NumOfMatches].NodePath = context.MatchPath
 			context.SearchData[context.NumOfMatches].NodeHandle = thisNode
 		} else {
-- 
2.43.0


From 5daad693be9c0fb0aff1ed73dbcc2b14e61d6164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:53 +0000
Subject: [PATCH 20/73] fix: write leaf and UUID lists of the binary parsers in
 their own format

---
 binary/c_parser/cparserlib.c         | 8 +++++---
 binary/go_parser/parserlib/parser.go | 2 ++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 8d9cdcd..7b2bd53 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -263,12 +263,12 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 			    fwrite("\"", 1, 1, context->listFp);
 			} else {
 			    if (context->numOfMatches == 0) {
-				    fwrite("{\"", 2, 1, context->listFp);
+				    fwrite("{\"path\":\"", 9, 1, context->listFp);
 			    } else {
-				    fwrite(", {\"", 4, 1, context->listFp);
+				    fwrite(", {\"path\":\"", 11, 1, context->listFp);
 			    }
 			    fwrite(context->matchPath, strlen(context->matchPath), 1, context->listFp);
-			    fwrite("\", \"", 4, 1, context->listFp);
+			    fwrite("\", \"uuid\":\"", 11, 1, context->listFp);
 			    char uuid[32+1];
 			    strcpy(uuid, VSSgetUUID(thisNode));
 			    fwrite(uuid, strlen(uuid), 1, context->listFp);
@@ -658,6 +658,7 @@ int VSSGetLeafNodesList(long rootNode, char* listFname) {
 	struct SearchContext_t searchContext;
 	struct SearchContext_t* context = &searchContext;
 	isGetLeafNodeList = true;
+	isGetUuidList = false;
 
 	FILE* listFp = fopen(listFname, "w+");
 	fwrite("{\"leafpaths\":[", 14, 1, listFp);
@@ -673,6 +674,7 @@ int VSSGetUuidList(long rootNode, char* listFname) {
 	struct SearchContext_t searchContext;
 	struct SearchContext_t* context = &searchContext;
 	isGetUuidList = true;
+	isGetLeafNodeList = false;
 
 	FILE* listFp = fopen(listFname, "w+");
 	fwrite("{\"leafuuids\":[", 14, 1, listFp);
diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index 3a8d713..236ab40 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -567,6 +567,7 @@ func VSSsearchNodes(searchPath string, rootNode *def.Node_t, maxFound int, anyDe
 func VSSGetLeafNodesList(rootNode *def.Node_t, listFname string) int {
     var context SearchContext_t
     isGetLeafNodeList = true
+    isGetUuidList = false
     var err error
     treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE, 0755)
     if (err != nil) {
@@ -585,6 +586,7 @@ func VSSGetLeafNodesList(rootNode *def.Node_t, listFname string) int {
 func VSSGetUuidList(rootNode *def.Node_t, listFname string) int {
     var context SearchContext_t
     isGetUuidList = true
+    isGetLeafNodeList = false
     var err error
     treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE, 0755)
     if (err != nil) {
-- 
2.43.0


From 178d82d2e904a473ab625174e24b52fa226d66c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:53 +0000
Subject: [PATCH 21/73] fix: truncate files rewritten by the Go binary parser

---
 binary/go_parser/parserlib/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index 236ab40..7a69d3a 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -569,7 +569,7 @@ func VSSGetLeafNodesList(rootNode *def.Node_t, listFname string) int {
     isGetLeafNodeList = true
     isGetUuidList = false
     var err error
-    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE, 0755)
+    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
 	fmt.Printf("Could not open %s for writing tree data\n", listFname)
 	return 0
@@ -588,7 +588,7 @@ func VSSGetUuidList(rootNode *def.Node_t, listFname string) int {
     isGetUuidList = true
     isGetLeafNodeList = false
     var err error
-    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE, 0755)
+    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
 	fmt.Printf("Could not open %s for writing tree data\n", listFname)
 	return 0
@@ -617,7 +617,7 @@ func VSSReadTree(fname string) *def.Node_t {
 
 func VSSWriteTree(fname string, root *def.Node_t) {
     var err error
-    treeFp, err = os.OpenFile(fname, os.O_RDWR|os.O_CREATE, 0755)
+    treeFp, err = os.OpenFile(fname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
 	fmt.Printf("Could not open %s for writing tree data\n", fname)
 	return
-- 
2.43.0


From 27927f0bd9e984fa6f25bdcf8bdd5b463cfb5c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:54 +0000
Subject: [PATCH 22/73] fix: path segments beyond the end of a search path in
 the Go binary parser

---
 binary/go_parser/parserlib/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index 7a69d3a..efb693f 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -278,15 +278,19 @@ func popPathSegment(context *SearchContext_t) {
 
 func getPathSegment(offset int, context *SearchContext_t) string {
 	frontDelimiter := 0
+	if (context.SearchPath == "") {
+		return ""
+	}
 	for i := 1 ; i < context.CurrentDepth + offset ; i++ {
-		frontDelimiter += strings.Index(context.SearchPath[frontDelimiter+1:], ".") + 1
-		if (frontDelimiter == -1) {
+		nextDelimiter := strings.Index(context.SearchPath[frontDelimiter+1:], ".")
+		if (nextDelimiter == -1) {
 			if (context.SearchPath[len(context.SearchPath)-1] == '*' && context.CurrentDepth < context.MaxDepth) {
 				return "*"
 			} else {
 				return ""
 			}
 		}
+		frontDelimiter += nextDelimiter + 1
 	}
 	endDelimiter := strings.Index(context.SearchPath[frontDelimiter+1:], ".") + frontDelimiter + 1
 	if (endDelimiter == frontDelimiter) {
-- 
2.43.0


From 4842d1635bee11b52295b2a5d0100eb09f562188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 23/73] fix: property type and consent marking in the Go binary
 parser

---
 binary/go_parser/datamodel/datamodel.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binary/go_parser/datamodel/datamodel.go b/binary/go_parser/datamodel/datamodel.go
index a7e9f00..ffd2a22 100644
--- a/binary/go_parser/datamodel/datamodel.go
+++ b/binary/go_parser/datamodel/datamodel.go
@@ -60,7 +60,7 @@ func StringToNodetype(nodeType string) uint8 {
     if (nodeType == "struct") {
         return STRUCT
     }
-    if (nodeType == "propery") {
+    if (nodeType == "property") {
         return PROPERTY
     }
     fmt.Printf("Unknown type! |%s|\n", nodeType);
@@ -97,7 +97,7 @@ func NodetypeToString(nodeType NodeTypes_t) string {
         return "struct"
     }
     if (nodeType == PROPERTY) {
-        return "propery"
+        return "property"
     }
     fmt.Printf("Unknown type! |%d|\n", nodeType);
     return ""
@@ -113,7 +113,7 @@ func ValidateToString(validate uint8) string {
         validation = "read-write"
     }
     if (validate/10 == 1) {
-        validation = "+consent"
+        validation += "+consent"
     }
     return validation
 }
-- 
2.43.0


From b241dc24bbbb58ca0fe0b26fe491c3b46e7d1ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 24/73] fix: allow more than 255 allowed values in the Go
 binary parser

---
 binary/go_parser/datamodel/datamodel.go | 2 +-
 binary/go_parser/parserlib/parser.go    | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/binary/go_parser/datamodel/datamodel.go b/binary/go_parser/datamodel/datamodel.go
index ffd2a22..8336419 100644
--- a/binary/go_parser/datamodel/datamodel.go
+++ b/binary/go_parser/datamodel/datamodel.go
@@ -35,7 +35,7 @@ type Node_t struct {
     Min string
     Max string
     Unit string
-    Allowed uint8
+    Allowed uint16
     AllowedDef []string
     DefaultAllowed string
     Validate uint8
diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index efb693f..a6d208b 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -362,7 +362,7 @@ func populateNode(thisNode *def.Node_t) {
 
 	allowedStrLen := deSerializeUInt(readBytes(2)).(uint16)
 	allowedStr := string(readBytes((uint32)(allowedStrLen)))
-	thisNode.Allowed = (uint8)(countAllowedElements(allowedStr))
+	thisNode.Allowed = (uint16)(countAllowedElements(allowedStr))
 	if (thisNode.Allowed > 0) {
             thisNode.AllowedDef = make([]string, thisNode.Allowed)
         }
@@ -451,7 +451,6 @@ func calculatAllowedStrLen(allowedDef []string) int {
 
 func allowedWrite(allowed string) {
     treeFp.Write(intToHex(len(allowed)))
-fmt.Printf("allowedHexLen: %s\n", string(intToHex(len(allowed))))
     treeFp.Write([]byte(allowed))
 }
 
-- 
2.43.0


From 71fe4bb1f1656385e01a725da00fba7bc7ba5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:57 +0000
Subject: [PATCH 25/73] fix: encode lengths in bytes and reject what the binary
 format cannot hold

---
 .../vspec/vssexporters/vss2binary.py          | 35 +++++++++++++++----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2binary.py b/src/vss_tools/vspec/vssexporters/vss2binary.py
index 9b72797..c788abd 100644
--- a/src/vss_tools/vspec/vssexporters/vss2binary.py
+++ b/src/vss_tools/vspec/vssexporters/vss2binary.py
@@ -26,6 +26,7 @@
 # the length is 0.
 
 import struct
+from io import BytesIO
 from pathlib import Path
 from typing import BinaryIO
 
@@ -37,16 +38,21 @@ from vss_tools.vspec.main import get_trees
 from vss_tools.vspec.tree import VSSNode
 
 
+class BinaryFormatException(Exception):
+    pass
+
+
 def allowedString(allowedList):
     allowedStr = ""
     for elem in allowedList:
-        allowedStr += hexAllowedLen(elem) + elem
+        allowedStr += hexAllowedLen(str(elem)) + str(elem)
     return allowedStr
 
 
 def hexAllowedLen(allowed):
-    hexDigit1 = len(allowed) // 16
-    hexDigit2 = len(allowed) - hexDigit1 * 16
+    length = encodedLen(allowed, 255)
+    hexDigit1 = length // 16
+    hexDigit2 = length - hexDigit1 * 16
     return "".join([intToHexChar(hexDigit1), intToHexChar(hexDigit2)])
 
 
@@ -57,10 +63,18 @@ def intToHexChar(hexInt):
         return chr(hexInt - 10 + ord("A"))
 
 
+# Number of bytes of the encoded string, which has to fit into the length field of the format
+def encodedLen(s: str, max_len: int) -> int:
+    length = len(s.encode())
+    if length > max_len:
+        raise BinaryFormatException(f"'{s}' needs {length} bytes, the binary format allows {max_len}")
+    return length
+
+
 # Create a struct containing the length of the string as uint8
 #  and the string itself
 def create_l8v_string(s: str) -> bytes:
-    pack = struct.pack(f"{len(s)+1}p", s.encode())
+    pack = struct.pack(f"{encodedLen(s, 255)+1}p", s.encode())
     # log.debug(f"create_l8v_string: {s} as {pack.hex()}")
     return pack
 
@@ -68,7 +82,8 @@ def create_l8v_string(s: str) -> bytes:
 # Create a struct containing the length of the string as uint16
 #  and the string itself
 def create_l16v_string(s: str) -> bytes:
-    pack = struct.pack(f"=H{len(s)}s", len(s), s.encode())
+    length = encodedLen(s, 65535)
+    pack = struct.pack(f"=H{length}s", length, s.encode())
     # log.debug(f"create_l16v_string: {s} as {pack.hex()}")
     return pack
 
@@ -98,6 +113,8 @@ def export_node(node: VSSNode, generate_uuid, f: BinaryIO):
     f.write(create_l8v_string(str(data.get("default", ""))))
     f.write(create_l8v_string(str(data.get("validate", ""))))
 
+    if len(node.children) > 255:
+        raise BinaryFormatException(f"'{node.get_fqn()}' has {len(node.children)} children, the binary format allows 255")
     f.write(struct.pack("B", len(node.children)))
 
     for child in node.children:
@@ -143,6 +160,12 @@ def cli(
         overlays=overlays,
     )
     log.info("Generating binary output...")
+    content = BytesIO()
+    try:
+        export_node(tree, uuid, content)
+    except BinaryFormatException as e:
+        log.critical(e)
+        exit(1)
     with open(str(output), "wb") as f:
-        export_node(tree, uuid, f)
+        f.write(content.getvalue())
     log.info("Binary output generated in %s", output)
-- 
2.43.0


From b63fb05abcb93bec605e9f66b9b5dab0995f5c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:12 +0000
Subject: [PATCH 26/73] fix: accept a single former name without list syntax

---
 src/vss_tools/vspec/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index 17a0bbe..ca5f72e 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -114,6 +114,11 @@ class VSSData(VSSRaw):
     fka: list[str] = []
     instantiate: bool = True
 
+    @field_validator("fka", mode="before")
+    @classmethod
+    def fill_fka(cls, v: Any) -> Any:
+        return [v] if isinstance(v, str) else v
+
     @field_validator("constUID")
     @classmethod
     def check_const_uid_format(cls, v: str | None) -> str | None:
-- 
2.43.0


From 6243cdcb1cc1e3bd7c16e648b0505d9b14f764db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:12 +0000
Subject: [PATCH 27/73] fix: detect colliding static UIDs in any notation

---
 src/vss_tools/vspec/vssexporters/vss2id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index 021f54a..dc4b54d 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -91,7 +91,7 @@ def export_node(data: dict[str, Any], node: VSSNode, id_counter, strict_mode: bo
     # check for hash duplicates
     for key, value in get_all_keys_values(data):
         if not isinstance(value, dict) and key == "staticUID":
-            if node_id == value:
+            if node_id.upper() == value.upper():
                 log.fatal(
                     f"There is a small chance that the result of FNV-1 "
                     f"hashes are the same in this case the hash of node "
-- 
2.43.0


From cbe7d3de51780dcf0c393a0e5b24f71d9fddffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:12 +0000
Subject: [PATCH 28/73] fix: look up former names with the requested case
 sensitivity

---
 src/vss_tools/vspec/utils/vss2id_val.py    | 8 ++++----
 src/vss_tools/vspec/vssexporters/vss2id.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vss_tools/vspec/utils/vss2id_val.py b/src/vss_tools/vspec/utils/vss2id_val.py
index 8231e32..2813f78 100644
--- a/src/vss_tools/vspec/utils/vss2id_val.py
+++ b/src/vss_tools/vspec/utils/vss2id_val.py
@@ -16,12 +16,12 @@ from vss_tools.vspec.tree import VSSNode
 from vss_tools.vspec.utils.idgen_utils import fnv1_32_wrapper
 
 
-def validate_static_uids(signals_dict: dict, validation_tree: VSSNode, strict: bool):
+def validate_static_uids(signals_dict: dict, validation_tree: VSSNode, case_sensitive: bool):
     """Check if static UIDs have changed or if new ones need to be added
 
     @param signals_dict: to be exported dict of all signals containing static UID
     @param validation_tree: tree loaded from validation file
-    @param strict
+    @param case_sensitive: whether static UIDs are generated case-sensitively
     @return: None
     """
 
@@ -98,11 +98,11 @@ def validate_static_uids(signals_dict: dict, validation_tree: VSSNode, strict: b
                 other_sUID = getattr(other_node.data, "staticUID", None)
                 if value["staticUID"] == other_sUID:
                     if key != other_node.get_fqn():
-                        _ = check_semantics(key, value, strict)
+                        _ = check_semantics(key, value, case_sensitive)
                     matched_uids.append((key, id_validation_tree))
             # if not matched via UID check semantics or path change
             if len(matched_uids) == 0:
-                semantic_match = check_semantics(key, value, strict)
+                semantic_match = check_semantics(key, value, case_sensitive)
                 if semantic_match is None:
                     key_found = False
                     for i, node in enumerate(validation_tree_nodes):
diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index dc4b54d..3703570 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -213,7 +213,7 @@ def cli(
             types=types,
             expand=expand,
         )
-        vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, strict)
+        vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, case_sensitive)
 
     if not validate_only:
         with open(output, "w") as f:
-- 
2.43.0


From 9cbe1eedad601d7b3618adc68a73097dadebc213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:12 +0000
Subject: [PATCH 29/73] fix: report added and removed deprecations in the
 static UID validation

---
 src/vss_tools/vspec/utils/vss2id_val.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/vss_tools/vspec/utils/vss2id_val.py b/src/vss_tools/vspec/utils/vss2id_val.py
index 2813f78..04a7054 100644
--- a/src/vss_tools/vspec/utils/vss2id_val.py
+++ b/src/vss_tools/vspec/utils/vss2id_val.py
@@ -66,14 +66,13 @@ def validate_static_uids(signals_dict: dict, validation_tree: VSSNode, case_sens
             return None
 
     def check_deprecation(k: str, v: dict, match_tuple: tuple):
-        if "deprecation" in v.keys() and validation_tree_nodes[match_tuple[1]].data.deprecation:
-            if v["deprecation"] != validation_tree_nodes[match_tuple[1]].data.deprecation:
-                log.warning(
-                    f"[Validation] DEPRECATION MSG CHANGE: Deprecation message "
-                    f"for '{k}' was "
-                    f"'{validation_tree_nodes[match_tuple[1]].data.deprecation}' "
-                    f"in validation but now is '{v['deprecation']}'."
-                )
+        if (v.get("deprecation") or None) != (validation_tree_nodes[match_tuple[1]].data.deprecation or None):
+            log.warning(
+                f"[Validation] DEPRECATION MSG CHANGE: Deprecation message "
+                f"for '{k}' was "
+                f"'{validation_tree_nodes[match_tuple[1]].data.deprecation}' "
+                f"in validation but now is '{v.get('deprecation')}'."
+            )
 
     def hashed_pipeline():
         """This pipeline uses FNV-1 hash for static UIDs.
-- 
2.43.0


From c69ca6413dab0894dc95cd4f55312898927b724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:12 +0000
Subject: [PATCH 30/73] fix: keep the validation entry of a renamed node whose
 path is used again

---
 src/vss_tools/vspec/utils/vss2id_val.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/utils/vss2id_val.py b/src/vss_tools/vspec/utils/vss2id_val.py
index 04a7054..27110a9 100644
--- a/src/vss_tools/vspec/utils/vss2id_val.py
+++ b/src/vss_tools/vspec/utils/vss2id_val.py
@@ -90,6 +90,7 @@ def validate_static_uids(signals_dict: dict, validation_tree: VSSNode, case_sens
         `DELETED ATTRIBUTE` warning.
         """
         nonlocal validation_tree_nodes
+        current_uids = {value["staticUID"] for value in signals_dict.values()}
 
         for key, value in signals_dict.items():
             matched_uids = []
@@ -107,7 +108,9 @@ def validate_static_uids(signals_dict: dict, validation_tree: VSSNode, case_sens
                     for i, node in enumerate(validation_tree_nodes):
                         if key == node.get_fqn():
                             key_found = True
-                            validation_tree_nodes.pop(i)
+                            # a renamed node that kept its UID still needs its old entry
+                            if getattr(node.data, "staticUID", None) not in current_uids:
+                                validation_tree_nodes.pop(i)
                             break
 
                     if key_found:
-- 
2.43.0


From c4bd9f35c37bdc3a696e06268e2237c09f7430b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:16 +0000
Subject: [PATCH 31/73] fix: write protobuf type files afresh and import each
 file once

---
 .../vspec/vssexporters/vss2protobuf.py        | 61 ++++++++++---------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 1072a79..7c2c9ff 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -10,8 +10,9 @@
 #
 
 import sys
-from io import TextIOWrapper
+from io import StringIO
 from pathlib import Path
+from typing import TextIO
 
 import rich_click as click
 from anytree import findall
@@ -38,11 +39,14 @@ mapped = {
 }
 
 
-def init_package_file(path: Path, package_name: str):
+def write_package_file(path: Path, package_name: str, imports: list[str], messages: list[str]):
+    path.parent.mkdir(parents=True, exist_ok=True)
     with open(path, "w") as f:
-        log.info(f"Initializing {path}, package {package_name}")
+        log.info(f"Writing {path}, package {package_name}")
         f.write('syntax = "proto3";\n\n')
         f.write(f"package {package_name};\n\n")
+        write_imports(f, imports)
+        f.write("\n".join(messages))
 
 
 def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool, out_dir: Path):
@@ -60,39 +64,36 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
     A/B/C/C.proto
     """
 
+    # package (as path) -> imports and messages of its file
+    packages: dict[Path, tuple[list[str], list[str]]] = {}
+
     node: VSSNode
     for node in findall(tree, filter_=lambda n: isinstance(n.data, VSSDataStruct)):
         # A/B/C/MyType
         struct_path = Path(node.get_fqn("/"))
 
-        # <out-dir>/A/B/C
-        package_path = out_dir / struct_path.parent
-        package_path.mkdir(parents=True, exist_ok=True)
-
+        imports, messages = packages.setdefault(struct_path.parent, ([], []))
+        for c_node in findall(node, filter_=lambda n: isinstance(n.data, VSSDataDatatype)):
+            datatype = c_node.data.datatype
+            if "." not in datatype:
+                continue
+            c_struct_path = Path(datatype.replace(".", "/"))
+            if c_struct_path.parent != struct_path.parent:
+                imports.append(f"{c_struct_path.parent}/{c_struct_path.parent.name}.proto")
+
+        message = StringIO()
+        message.write(f"message {struct_path.name} {{" + "\n")
+        print_messages(node.children, message, static_uid, add_optional)
+        message.write("}\n\n")
+        messages.append(message.getvalue())
+
+    for package, (imports, messages) in packages.items():
         # <out-dir>/A/B/C/C.proto
-        out_file = package_path / f"{package_path.name}.proto"
-        if not out_file.exists():
-            init_package_file(out_file, ".".join(struct_path.parent.parts))
-
-        with open(out_file, "a") as fd:
-            imports = []
-            for c_node in findall(node, filter_=lambda n: isinstance(n.data, VSSDataDatatype)):
-                datatype = c_node.data.datatype
-                if "." not in datatype:
-                    continue
-                c_struct_path = Path(datatype.replace(".", "/"))
-                if c_struct_path.parent != struct_path.parent:
-                    imports.append(f"{c_struct_path.parent}/{c_struct_path.parent.name}.proto")
-
-            write_imports(fd, imports)
-
-            fd.write(f"message {struct_path.name} {{" + "\n")
-            print_messages(node.children, fd, static_uid, add_optional)
-            fd.write("}\n\n")
-            log.info(f"Wrote {struct_path.name} to {out_file}")
+        out_file = Path(out_dir) / package / f"{package.name}.proto"
+        write_package_file(out_file, ".".join(package.parts), imports, messages)
 
 
-def traverse_signal_tree(tree: VSSNode, fd: TextIOWrapper, static_uid: bool, add_optional: bool):
+def traverse_signal_tree(tree: VSSNode, fd: TextIO, static_uid: bool, add_optional: bool):
     fd.write('syntax = "proto3";\n\n')
 
     imports = []
@@ -111,7 +112,7 @@ def traverse_signal_tree(tree: VSSNode, fd: TextIOWrapper, static_uid: bool, add
         fd.write("}\n\n")
 
 
-def write_imports(fd: TextIOWrapper, imports: list[str]):
+def write_imports(fd: TextIO, imports: list[str]):
     imports = list(set(imports))
     imports.sort()
     for stmt in imports:
@@ -119,7 +120,7 @@ def write_imports(fd: TextIOWrapper, imports: list[str]):
     fd.write("\n")
 
 
-def print_messages(nodes: tuple[VSSNode], fd: TextIOWrapper, static_uid: bool, add_optional: bool):
+def print_messages(nodes: tuple[VSSNode], fd: TextIO, static_uid: bool, add_optional: bool):
     usedKeys: dict[int, str] = {}
     for i, node in enumerate(nodes, 1):
         if isinstance(node.data, VSSDataDatatype):
-- 
2.43.0


From f3dc53998ab5a8929e53745d90dd1e851fb80d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:16 +0000
Subject: [PATCH 32/73] fix: check protobuf field numbers before any output is
 written

---
 .../vspec/vssexporters/vss2protobuf.py        | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 7c2c9ff..da873c5 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -29,6 +29,7 @@ from vss_tools.vspec.tree import VSSNode
 
 PATH_DELIMITER = "."
 DIR_DELIMITER = "/"
+MAX_FIELD_NUMBER = 2**29 - 1
 
 mapped = {
     "uint16": "uint32",
@@ -144,9 +145,17 @@ def print_messages(nodes: tuple[VSSNode], fd: TextIO, static_uid: bool, add_opti
                 )
                 sys.exit(-1)
             fieldNumber = int(int(getattr(node.data, "staticUID"), 0) / 8)
+            if fieldNumber < 1 or fieldNumber > MAX_FIELD_NUMBER:
+                log.fatal(
+                    f"Aborting because field number {fieldNumber} for signal {node.get_fqn()} is not in the "
+                    f"range from 1 to {MAX_FIELD_NUMBER}. Consider changing the signal to alter the staticUID."
+                )
+                sys.exit(-1)
             if fieldNumber < 20000 and fieldNumber >= 19000:
-                log.fatal("""Aborting because field number {fieldNumber} for signal {node.name} is in
-                reservered range between 19000 and 20000. Consider changing the signal to alter the staticUID.""")
+                log.fatal(
+                    f"Aborting because field number {fieldNumber} for signal {node.get_fqn()} is in "
+                    "reserved range between 19000 and 20000. Consider changing the signal to alter the staticUID."
+                )
                 sys.exit(-1)
             if fieldNumber in usedKeys:
                 log.fatal(
@@ -156,7 +165,6 @@ def print_messages(nodes: tuple[VSSNode], fd: TextIO, static_uid: bool, add_opti
                         "Consider changing the signals to alter the staticUID."
                     )
                 )
-                fd.truncate(0)
                 sys.exit(-1)
             else:
                 usedKeys[fieldNumber] = node.get_fqn()
@@ -217,6 +225,9 @@ def cli(
         types=types,
         overlays=overlays,
     )
+    signals = StringIO()
+    traverse_signal_tree(tree, signals, static_uid, add_optional)
+
     if datatype_tree:
         if not types_out_dir:
             types_out_dir = Path.cwd()
@@ -225,4 +236,4 @@ def cli(
 
     with open(output, "w") as f:
         log.info(f"Writing to: {output}")
-        traverse_signal_tree(tree, f, static_uid, add_optional)
+        f.write(signals.getvalue())
-- 
2.43.0


From 5a6b6957ccd1a29692c68218a69e2b93c12e4523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:16 +0000
Subject: [PATCH 33/73] fix: detect branches with the same protobuf message
 name

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index da873c5..9391c6b 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -107,7 +107,15 @@ def traverse_signal_tree(tree: VSSNode, fd: TextIO, static_uid: bool, add_option
     write_imports(fd, imports)
 
     # write proto messages to file
+    messages: dict[str, str] = {}
     for node in findall(tree, filter_=lambda node: isinstance(node.data, VSSDataBranch)):
+        other = messages.setdefault(node.get_fqn(""), node.get_fqn())
+        if other != node.get_fqn():
+            log.fatal(
+                f"Aborting, because the branches {other} and {node.get_fqn()} "
+                f"have the same message name {node.get_fqn('')}. Consider renaming one of them."
+            )
+            sys.exit(-1)
         fd.write(f"message {node.get_fqn('')} {{" + "\n")
         print_messages(node.children, fd, static_uid, add_optional)
         fd.write("}\n\n")
-- 
2.43.0


From 948dd204c8061be3019b77152b60ed1c90286ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:00 +0000
Subject: [PATCH 34/73] fix: leave out GraphQL types of branches without any
 leaf

---
 src/vss_tools/vspec/vssexporters/vss2graphql.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index b259d9b..3e2ef3a 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -10,6 +10,7 @@ from pathlib import Path
 from typing import Dict
 
 import rich_click as click
+from anytree import PreOrderIter
 from graphql import (
     GraphQLArgument,
     GraphQLBoolean,
@@ -117,8 +118,8 @@ def leaf_fields(node: VSSNode, additional_leaf_fields: list) -> Dict[str, GraphQ
 
 
 def branch_fields(node: VSSNode, additional_leaf_fields: list) -> Dict[str, GraphQLField]:
-    # we only consider nodes that either have children or are datatype leafs
-    valid = (c for c in node.children if len(c.children) or hasattr(c.data, "datatype"))
+    # we only consider nodes that are datatype leafs or have some below, as a GraphQL type needs fields
+    valid = (c for c in node.children if any(isinstance(n.data, VSSDataDatatype) for n in PreOrderIter(c)))
     return {camel_back(c.name): field(c, type=to_gql_type(c, additional_leaf_fields)) for c in valid}
 
 
-- 
2.43.0


From 128081cb49b9a0950cefb76564a3ac7fcbce7445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:00 +0000
Subject: [PATCH 35/73] fix: allow commas in GraphQL field descriptions and
 write the schema only when it is complete

---
 src/vss_tools/vspec/vssexporters/vss2graphql.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index 3e2ef3a..9c3c360 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -177,10 +177,10 @@ def cli(
         overlays=overlays,
     )
     log.info("Generating graphql output...")
-    outfile = open(output, "w")
     gqlfields: list[list[str]] = []
     for field in gql_fields:
-        gqlfields.append(field.split(","))
-    outfile.write(get_schema_from_tree(tree, gqlfields))
-    outfile.write("\n")
-    outfile.close()
+        gqlfields.append(field.split(",", 1))
+    schema = get_schema_from_tree(tree, gqlfields)
+    with open(output, "w") as outfile:
+        outfile.write(schema)
+        outfile.write("\n")
-- 
2.43.0


From 63163407abc3b1dd5866a9569d349ec507111565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:00 +0000
Subject: [PATCH 36/73] fix: detect siblings with the same GraphQL field name

---
 src/vss_tools/vspec/vssexporters/vss2graphql.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index 9c3c360..1905b03 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -120,7 +120,13 @@ def leaf_fields(node: VSSNode, additional_leaf_fields: list) -> Dict[str, GraphQ
 def branch_fields(node: VSSNode, additional_leaf_fields: list) -> Dict[str, GraphQLField]:
     # we only consider nodes that are datatype leafs or have some below, as a GraphQL type needs fields
     valid = (c for c in node.children if any(isinstance(n.data, VSSDataDatatype) for n in PreOrderIter(c)))
-    return {camel_back(c.name): field(c, type=to_gql_type(c, additional_leaf_fields)) for c in valid}
+    fields: Dict[str, GraphQLField] = {}
+    for c in valid:
+        name = camel_back(c.name)
+        if name in fields:
+            raise GraphQLFieldException(f"{c.get_fqn()}: the field name '{name}' is used by another child of the branch")
+        fields[name] = field(c, type=to_gql_type(c, additional_leaf_fields))
+    return fields
 
 
 def field(node: VSSNode, description_prefix="", type=GraphQLString) -> GraphQLField:
-- 
2.43.0


From d7eb97592ba0d3a8d49e7b707768817cb1c3004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:50 +0000
Subject: [PATCH 37/73] fix: escape string values in the Franca output

---
 src/vss_tools/vspec/vssexporters/vss2franca.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2franca.py b/src/vss_tools/vspec/vssexporters/vss2franca.py
index c1192df..b6f6831 100644
--- a/src/vss_tools/vspec/vssexporters/vss2franca.py
+++ b/src/vss_tools/vspec/vssexporters/vss2franca.py
@@ -21,6 +21,13 @@ from vss_tools.vspec.main import get_trees
 from vss_tools.vspec.tree import VSSNode
 
 
+def escape(value: object) -> str:
+    """
+    Escapes what would end a string literal
+    """
+    return str(value).replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")
+
+
 # Write the header line
 def print_franca_header(file, version="unknown"):
     file.write(f"""
@@ -30,7 +37,7 @@ def print_franca_header(file, version="unknown"):
 // Mozilla Public License, version 2.0.  The full text of the
 // Mozilla Public License is at https://www.mozilla.org/MPL/2.0/
 
-const UTF8String VSS_VERSION = "{version}"
+const UTF8String VSS_VERSION = "{escape(version)}"
 
 struct SignalSpec {{
     UInt32 id
@@ -60,7 +67,7 @@ def print_franca_content(file: TextIOWrapper, root: VSSNode, with_uuid: bool) ->
                 output += "{"
             output += f'\tname: "{node.get_fqn()}"'
             output += f',\n\ttype: "{data.type.value}"'
-            output += f',\n\tdescription: "{data.description}"'
+            output += f',\n\tdescription: "{escape(data.description)}"'
             datatype = getattr(data, "datatype", None)
             if datatype:
                 output += f',\n\tdatatype: "{datatype}"'
@@ -68,7 +75,7 @@ def print_franca_content(file: TextIOWrapper, root: VSSNode, with_uuid: bool) ->
                 output += f',\n\tuuid: "{node.uuid}"'
             unit = getattr(data, "unit", None)
             if unit:
-                output += f',\n\tunit: "{unit}"'
+                output += f',\n\tunit: "{escape(unit)}"'
             min = getattr(data, "min", None)
             if min is not None:
                 output += f",\n\tmin: {min}"
-- 
2.43.0


From 1c65acbd896f9df9d4134ce2f5138cccded085cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:35 +0000
Subject: [PATCH 38/73] fix: valid and distinct ApiGear enumeration members
 with their decimal values

---
 .../vspec/vssexporters/vss2apigear.py         | 31 +++++++++++--------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index df72495..354a2b3 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -10,6 +10,7 @@
 
 
 import abc
+import re
 import typing
 import yaml
 import rich_click as click
@@ -108,16 +109,17 @@ class ApiGearModule:
 
 
 def starts_with_number(name: str) -> bool:
-    return name[0].isdigit()
+    return name[:1].isdigit()
 
 
-def hex_to_dec(number: str) -> int | None:
-    if starts_with_number(number):
-        try:
-            return int(number, 16)
-        except ValueError:
-            return None
-    return None
+def to_int(number: str) -> int | None:
+    """
+    Value of a decimal (123) or prefixed (0x7B) integer, None if the text is something else
+    """
+    try:
+        return int(number, 0)
+    except ValueError:
+        return None
 
 
 def get_allowed_enum_literal(name: str) -> str:
@@ -132,9 +134,10 @@ def get_allowed_enum_literal(name: str) -> str:
     Python code by Eclipse Cyclone DDS idlc Python Backend.
     By that reason we now add a regular character instead.
     """
-    if starts_with_number(name):
-        return "d" + name.replace(".", "_")
-    return name
+    literal = re.sub(r"\W", "_", name, flags=re.ASCII)
+    if starts_with_number(literal) or not literal.strip("_") or to_int(name) is not None:
+        return "d" + literal
+    return literal
 
 
 def get_apigear_datatype(t: str) -> typing.Optional[ApiGearType]:
@@ -210,11 +213,13 @@ def export_node(node: VSSNode, module: ApiGearModule, interface: ApiGearInterfac
 
             for element in allowed:
                 element_str = str(element)
-                element_dec = hex_to_dec(element_str)
+                element_dec = to_int(element_str)
                 variant = get_allowed_enum_literal(element_str)
+                while variant in [name for name, _ in enum.variants]:
+                    variant += "_"
                 log.debug(f"  New variant: {variant}")
                 datatype = getattr(data, "datatype")
-                if datatype == Datatypes.FLOAT[0]:
+                if datatype.removesuffix("[]") in [Datatypes.FLOAT[0], Datatypes.DOUBLE[0]]:
                     enum.variants.append((variant, None))
                 else:
                     enum.variants.append((variant, element_dec))
-- 
2.43.0


From d7aa4a5b6fda4769ee994b8ecbf3c5de07c24934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:35 +0000
Subject: [PATCH 39/73] fix: keep the specified path of a layer in the ApiGear
 solution

---
 src/vss_tools/vspec/vssexporters/vss2apigear.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index 354a2b3..38865c4 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -384,16 +384,16 @@ def generate_solution(directory: Path, module_filename: str, module_name: str,
     for solution in layers:
         match solution:
             case SolutionLayers.UNREAL:
-                unreal["output"] = layers[solution].name
+                unreal["output"] = layers[solution].as_posix()
                 yaml_dict["layers"].append(unreal)
             case SolutionLayers.CPP:
-                cpp14["output"] = layers[solution].name
+                cpp14["output"] = layers[solution].as_posix()
                 yaml_dict["layers"].append(cpp14)
             case SolutionLayers.QT5:
-                qt5["output"] = layers[solution].name
+                qt5["output"] = layers[solution].as_posix()
                 yaml_dict["layers"].append(qt5)
             case SolutionLayers.QT6:
-                qt6["output"] = layers[solution].name
+                qt6["output"] = layers[solution].as_posix()
                 yaml_dict["layers"].append(qt6)
 
     solution_filename = f"{module_name}.solution.yaml"
-- 
2.43.0


From 945939b701281ff687739461a4190dfe9d1ee1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:35 +0000
Subject: [PATCH 40/73] fix: fail if the ApiGear output directory already
 exists

---
 src/vss_tools/vspec/vssexporters/vss2apigear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index 38865c4..9194814 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -11,6 +11,7 @@
 
 import abc
 import re
+import sys
 import typing
 import yaml
 import rich_click as click
@@ -513,7 +514,7 @@ def cli(
     log.info("Generating ApiGear output...")
     if output_dir.exists():
         log.error("Directory already exists. Aborting..")
-        return
+        sys.exit(1)
     output_dir.mkdir(exist_ok=True, parents=True)
 
     layers = {}
-- 
2.43.0


From c1118dc30ff1cfe74436d8bd910715738bfb1089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:35 +0000
Subject: [PATCH 41/73] fix: refer to deprecated structs by their ApiGear name

---
 .../vspec/vssexporters/vss2apigear.py         | 39 ++++++++++++++-----
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index 9194814..818b4bc 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -17,6 +17,7 @@ import yaml
 import rich_click as click
 import vss_tools.vspec.cli_options as clo
 
+from anytree import findall
 from enum import Enum, Flag, auto
 from vss_tools import log
 from vss_tools.vspec.tree import VSSNode
@@ -178,8 +179,11 @@ def node_name(node: VSSNode) -> str:
         return name
 
 
-def generate_property(node: VSSNode, datatype: str) -> ApiGearProperty | None:
+def generate_property(node: VSSNode, datatype: str, struct_names: dict[str, str]) -> ApiGearProperty | None:
     apigear_type = get_apigear_datatype(datatype)
+    base_type = datatype.removesuffix("[]")
+    if apigear_type is not None and base_type in struct_names:
+        apigear_type.type = struct_names[base_type]
     data = node.get_vss_data()
 
     if apigear_type is None:
@@ -192,7 +196,12 @@ def generate_property(node: VSSNode, datatype: str) -> ApiGearProperty | None:
     return property
 
 
-def export_node(node: VSSNode, module: ApiGearModule, interface: ApiGearInterface | None = None):
+def export_node(
+    node: VSSNode,
+    module: ApiGearModule,
+    struct_names: dict[str, str],
+    interface: ApiGearInterface | None = None,
+):
     log.debug(f"Node {node.get_fqn()}")
     data = node.get_vss_data()
     name = f"{node.name}_Deprecated" if data.deprecation else node.name
@@ -204,7 +213,7 @@ def export_node(node: VSSNode, module: ApiGearModule, interface: ApiGearInterfac
         module.interfaces.append(new_interface)
 
         for child in node.children:
-            export_node(child, module, new_interface)
+            export_node(child, module, struct_names, new_interface)
     else:
         allowed = getattr(data, "allowed")
         if allowed:
@@ -233,12 +242,17 @@ def export_node(node: VSSNode, module: ApiGearModule, interface: ApiGearInterfac
                 module.enumerations.append(enum)
         elif isinstance(node.data, VSSDataDatatype):
             datatype = getattr(data, "datatype")
-            prop = generate_property(node, datatype)
+            prop = generate_property(node, datatype, struct_names)
             if prop is not None and interface is not None:
                 interface.properties[name] = prop
 
 
-def export_data_type_node(node: VSSNode | None, module: ApiGearModule, structure: ApiGearStructure | None = None):
+def export_data_type_node(
+    node: VSSNode | None,
+    module: ApiGearModule,
+    struct_names: dict[str, str],
+    structure: ApiGearStructure | None = None,
+):
     """This method is used to traverse through the root VSS Data Types node to build
        -> ApiGear equivalent string buffer and to serialize it accordingly into a module
     """
@@ -253,19 +267,19 @@ def export_data_type_node(node: VSSNode | None, module: ApiGearModule, structure
 
     if isinstance(node.data, VSSDataBranch):
         for child in node.children:
-            export_data_type_node(child, module)
+            export_data_type_node(child, module, struct_names)
     elif isinstance(node.data, VSSDataStruct):
         struct_name = node_name(node)
         struct = ApiGearStructure(struct_name)
         log.debug(f"Creating a new structure {struct_name}")
 
         for child in node.children:
-            export_data_type_node(child, module, struct)
+            export_data_type_node(child, module, struct_names, struct)
 
         module.structures.append(struct)
     elif isinstance(node.data, VSSDataDatatype):
         datatype = getattr(data, "datatype")
-        prop = generate_property(node, datatype)
+        prop = generate_property(node, datatype, struct_names)
         if prop is not None and structure is not None:
             structure.properties[name] = prop
 
@@ -435,8 +449,13 @@ def export_apigear(directory: Path, root: VSSNode, data_type_tree: VSSNode | Non
 
     log.debug(layers)
 
-    export_node(root, module)
-    export_data_type_node(data_type_tree, module)
+    struct_names: dict[str, str] = {}
+    if data_type_tree is not None:
+        for struct in findall(data_type_tree, filter_=lambda n: isinstance(n.data, VSSDataStruct)):
+            struct_names[struct.get_fqn()] = node_name(struct)
+
+    export_node(root, module, struct_names)
+    export_data_type_node(data_type_tree, module, struct_names)
     generate_solution(directory, module_filename, module_name, layers)
     generate_module(directory, module, module_name, module_filename)
     log.info(f"Apigear files generated at location: {directory}")
-- 
2.43.0


From 35d3951d101f0a0dc91385b3e729e3ff29668cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:53 +0000
Subject: [PATCH 42/73] fix: detect nodes with the same ApiGear name

---
 src/vss_tools/vspec/vssexporters/vss2apigear.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index 818b4bc..bf33cfe 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -456,6 +456,14 @@ def export_apigear(directory: Path, root: VSSNode, data_type_tree: VSSNode | Non
 
     export_node(root, module, struct_names)
     export_data_type_node(data_type_tree, module, struct_names)
+
+    names = [x.name for x in [*filter(lambda i: i.properties, module.interfaces), *module.enumerations, *module.structures]]
+    twice = sorted({name for name in names if names.count(name) > 1})
+    if twice:
+        log.fatal(f"Aborting, because different nodes have the same ApiGear name: {', '.join(twice)}")
+        sys.exit(-1)
+
+    directory.mkdir(exist_ok=True, parents=True)
     generate_solution(directory, module_filename, module_name, layers)
     generate_module(directory, module, module_name, module_filename)
     log.info(f"Apigear files generated at location: {directory}")
@@ -534,7 +542,6 @@ def cli(
     if output_dir.exists():
         log.error("Directory already exists. Aborting..")
         sys.exit(1)
-    output_dir.mkdir(exist_ok=True, parents=True)
 
     layers = {}
     if (apigear_template_unreal_path is not None):
-- 
2.43.0


From 38e3d83eba172d45ccb422a3100d39470a59dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:34 +0000
Subject: [PATCH 43/73] fix: escape all reserved words in any letter case in
 DDS-IDL

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 4107789..8200f64 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -145,8 +145,12 @@ idl_keywords = [
 ]
 
 
+# IDL identifiers that differ from a keyword only in case are not allowed either
+reserved_names = {name.lower() for name in [*c_keywords, *idl_keywords, *keyword.kwlist]}
+
+
 def getAllowedName(name):
-    if name.lower() in c_keywords or name.lower() in idl_keywords or keyword.iskeyword(name.lower):
+    if name.lower() in reserved_names:
         return "_" + name
     else:
         return name
-- 
2.43.0


From 81005b9393da89f3709f950a1902bc824015b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:34 +0000
Subject: [PATCH 44/73] fix: escape strings in DDS-IDL

---
 .../vspec/vssexporters/vss2ddsidl.py          | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 8200f64..814aa6a 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -173,6 +173,15 @@ def get_allowed_enum_literal(name: str):
     return name
 
 
+def get_string_literal(text: str) -> str:
+    """
+    Quoted string literal on a single line
+    """
+    text = text.replace("\\", "\\\\").replace('"', '\\"')
+    text = text.replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t")
+    return '"' + text + '"'
+
+
 idl_file_buffer = []
 
 dataTypesMap_covesa_dds = {
@@ -260,9 +269,9 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
         max = getattr(node.data, "max")
 
         default = getattr(node.data, "default")
-        if default:
+        if default is not None:
             if isinstance(default, str) and not enum_created:
-                default = '"' + default + '"'
+                default = get_string_literal(default)
 
         if datatype is not None:
             # adding range if min and max are specified in vspec file
@@ -301,7 +310,9 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
                     )
 
         if unit is not None:
-            idl_file_buffer.append(("" if generate_all_idl_features else "//") + 'const string unit="' + unit + '";')
+            idl_file_buffer.append(
+                ("" if generate_all_idl_features else "//") + "const string unit=" + get_string_literal(unit) + ";"
+            )
 
         data = node.get_vss_data()
         idl_file_buffer.append(
@@ -309,7 +320,10 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
         )
 
         idl_file_buffer.append(
-            ("" if generate_all_idl_features else "//") + 'const string description="' + data.description + '";'
+            ("" if generate_all_idl_features else "//")
+            + "const string description="
+            + get_string_literal(data.description)
+            + ";"
         )
         idl_file_buffer.append("};")
 
-- 
2.43.0


From 8b5684020c54850772c2b21047b99977015a8c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:12 +0000
Subject: [PATCH 45/73] fix: valid and distinct DDS-IDL enumeration literals
 and defaults

---
 .../vspec/vssexporters/vss2ddsidl.py          | 51 ++++++++++++++-----
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 814aa6a..c295807 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -11,6 +11,8 @@
 #
 
 import keyword
+import re
+import typing
 from pathlib import Path
 
 import rich_click as click
@@ -168,9 +170,35 @@ def get_allowed_enum_literal(name: str):
     Python code by Eclipse Cyclone DDS idlc Python Backend.
     By that reason we now add a regular character instead.
     """
-    if name[0].isdigit():
-        return "d" + name
-    return name
+    literal = re.sub(r"\W", "_", name, flags=re.ASCII)
+    if literal[:1].isdigit() or not literal.strip("_"):
+        return "d" + literal
+    return getAllowedName(literal)
+
+
+def get_allowed_enum_literals(allowed: list[str]) -> dict[str, str]:
+    """
+    Enumeration literal of every allowed value. IDL identifiers must differ in more than case.
+    """
+    literals: dict[str, str] = {}
+    used: set[str] = set()
+    for value in allowed:
+        literal = get_allowed_enum_literal(value)
+        while literal.lower().removeprefix("_") in used:
+            literal += "_"
+        used.add(literal.lower().removeprefix("_"))
+        literals[value] = literal
+    return literals
+
+
+def get_default(default: typing.Any, literals: dict[str, str] | None) -> str:
+    if isinstance(default, list):
+        return "[" + ", ".join(get_default(item, literals) for item in default) + "]"
+    if isinstance(default, bool):
+        return "TRUE" if default else "FALSE"
+    if isinstance(default, str):
+        return literals[default] if literals is not None else get_string_literal(default)
+    return str(default)
 
 
 def get_string_literal(text: str) -> str:
@@ -206,7 +234,6 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
     """
     global idl_file_buffer
     arraysize = getattr(node.data, "arraysize", None)
-    allowed_values = None
 
     if isinstance(node.data, VSSDataBranch):
         idl_file_buffer.append("module " + getAllowedName(node.name))
@@ -216,7 +243,7 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
         idl_file_buffer.append("};")
         idl_file_buffer.append("")
     else:
-        enum_created = False
+        literals: dict[str, str] | None = None
         # check if there is a need to create enum (based on the usage of allowed values)
         allowed = getattr(node.data, "allowed")
         datatype = getattr(node.data, "datatype")
@@ -226,18 +253,17 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
             module name for enum is chosen as the node name +
             """
             if datatype in ["string", "string[]"]:
+                literals = get_allowed_enum_literals(allowed)
                 idl_file_buffer.append("module " + getAllowedName(node.name) + "_M")
                 idl_file_buffer.append("{")
                 idl_file_buffer.append(
                     "enum "
                     + getAllowedName(node.name)
                     + "Values{"
-                    + str(",".join(get_allowed_enum_literal(item) for item in allowed))
+                    + str(",".join(literals.values()))
                     + "};"
                 )
-                enum_created = True
                 idl_file_buffer.append("};")
-                allowed_values = str(allowed)
             else:
                 print(
                     f"Warning: VSS2IDL can only handle allowed values for string type, "
@@ -270,15 +296,14 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
 
         default = getattr(node.data, "default")
         if default is not None:
-            if isinstance(default, str) and not enum_created:
-                default = get_string_literal(default)
+            default = get_default(default, literals)
 
         if datatype is not None:
             # adding range if min and max are specified in vspec file
             if min is not None and max is not None and generate_all_idl_features:
                 idl_file_buffer.append("@range(min=" + str(min) + " ,max=" + str(max) + ")")
 
-            if allowed_values is None:
+            if literals is None:
                 if default is None:
                     idl_file_buffer.append(
                         ("sequence<" + datatype + "> value" if arraysize is not None else datatype + " value") + ";"
@@ -288,7 +313,7 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
                     # these values can be generated if --all-idl-features is set as True
                     idl_file_buffer.append(
                         ("sequence<" + datatype + "> value" if arraysize is not None else datatype + " value")
-                        + ("  default " + str(default) if generate_all_idl_features else "")
+                        + ("  default " + default if generate_all_idl_features else "")
                         + ";"
                     )
             else:
@@ -305,7 +330,7 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
                         + "_M::"
                         + getAllowedName(node.name)
                         + "Values value"
-                        + (" " + str(default) if generate_all_idl_features else "")
+                        + ("  default " + default if generate_all_idl_features else "")
                         + ";"
                     )
 
-- 
2.43.0


From f07c83d273de397c0a8f881e61742854eb24a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:12 +0000
Subject: [PATCH 46/73] fix: resolvable type references and sequences of
 structs in DDS-IDL

---
 .../vspec/vssexporters/vss2ddsidl.py          | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index c295807..e8ef497 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -16,6 +16,7 @@ import typing
 from pathlib import Path
 
 import rich_click as click
+from anytree import findall
 
 import vss_tools.vspec.cli_options as clo
 from vss_tools import log
@@ -210,6 +211,18 @@ def get_string_literal(text: str) -> str:
     return '"' + text + '"'
 
 
+def get_type_reference(datatype: str, root: VSSNode) -> str:
+    """
+    IDL type of a primitive or struct datatype (without array brackets) used below the given root
+    """
+    if datatype in dataTypesMap_covesa_dds:
+        return dataTypesMap_covesa_dds[datatype]
+    parts = datatype.split(".")
+    # the name is relative, make it absolute where another node would be found first
+    nodes = findall(root, filter_=lambda n: n.parent is not None and n.name.lower() == parts[0].lower())
+    return ("::" if nodes else "") + "::".join(getAllowedName(part) for part in parts)
+
+
 idl_file_buffer = []
 
 dataTypesMap_covesa_dds = {
@@ -277,15 +290,11 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
         # fetching value of datatype and obtaining the equivalent DDS type
         try:
             if datatype:
-                if datatype in dataTypesMap_covesa_dds:
-                    datatype = str(dataTypesMap_covesa_dds[datatype])
-                elif "[" in datatype:
+                if "[" in datatype:
                     nodevalueArray = datatype.split("[", 1)
-                    if str(nodevalueArray[0]) in dataTypesMap_covesa_dds:
-                        datatype = str(dataTypesMap_covesa_dds[str(nodevalueArray[0])])
-                        arraysize = "[" + str(arraysize) + nodevalueArray[1]
-                else:  # no primitive type. this is custom
-                    datatype = datatype.replace(".", "::")  # custom data type
+                    datatype = nodevalueArray[0]
+                    arraysize = "[" + str(arraysize) + nodevalueArray[1]
+                datatype = get_type_reference(datatype, node.root)
 
         except AttributeError:
             pass
@@ -401,7 +410,7 @@ class StructExporter(object):
             self.structs_seen.append(node.get_fqn("::").split("[", 1)[0])
         else:
             datatype = getattr_nn(node.data, "datatype", "")
-            datatype_str = datatype.replace(".", "::").split("[", 1)[0]
+            datatype_str = get_type_reference(datatype.split("[", 1)[0], node.root)
             is_seq = "[" in datatype
             if is_seq:
                 self.str_buf += f"sequence<{datatype_str}> {getAllowedName(node.name)};\n"
-- 
2.43.0


From 81b383c238612efad38f4200ff26dcacd9518781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:37 +0000
Subject: [PATCH 47/73] fix: define DDS-IDL structs before they are used

---
 .../vspec/vssexporters/vss2ddsidl.py          | 87 ++++++++++---------
 1 file changed, 45 insertions(+), 42 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index e8ef497..9762498 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -369,59 +369,62 @@ class StructExporter(object):
 
     def __init__(self):
         self.str_buf = ""
+        self.structs_open = []
         self.structs_seen = []
+        self.modules = []
 
     def export(self, root) -> str:
         self.str_buf = ""
+        self.structs_open = []
         self.structs_seen = []
-        self.export_data_type_node(root)
+        self.modules = []
+        self.structs = {n.get_fqn(): n for n in findall(root, filter_=lambda n: isinstance(n.data, VSSDataStruct))}
+        for struct in self.structs.values():
+            self.export_struct(struct)
+        self.enter_modules([])
         return self.str_buf
 
-    def export_data_type_node(self, node: VSSNode):
+    def enter_modules(self, modules: list[str]):
         """
-        This method is used to traverse VSS node and to create corresponding DDS IDL buffer string
+        Close and open modules until the given ones are open
         """
+        common = 0
+        while common < min(len(modules), len(self.modules)) and modules[common] == self.modules[common]:
+            common += 1
+        self.str_buf += "};\n" * (len(self.modules) - common)
+        for module in modules[common:]:
+            self.str_buf += f"module {module}" + " {\n"
+        self.modules = modules
+
+    def export_struct(self, node: VSSNode):
+        """
+        Export a struct after all structs it uses. A struct that is used by one it uses is declared before.
+        """
+        fqn = node.get_fqn()
+        if fqn in self.structs_seen:
+            return
+        modules = [getAllowedName(n.name) for n in node.ancestors]
+        if fqn in self.structs_open:
+            self.enter_modules(modules)
+            self.str_buf += f"struct {getAllowedName(node.name)};\n"
+            return
+
+        self.structs_open.append(fqn)
+        for child in node.children:
+            used = self.structs.get(getattr_nn(child.data, "datatype", "").split("[", 1)[0])
+            if used is not None:
+                self.export_struct(used)
 
-        prefix = ""
-        suffix = ""
-        if isinstance(node.data, VSSDataBranch):
-            prefix = f"module {getAllowedName(node.name)}" + " {\n"
-            suffix = "};\n"
-        elif isinstance(node.data, VSSDataStruct):
-            # check if the properties use structs that have not been seen before
-            # if not, add a forward declaration
-            fwds = []
-            for c in node.children:
-                datatype = getattr_nn(c.data, "datatype", "")
-                if not datatype.startswith("Types."):
-                    continue
-
-                datatype_str = datatype(".", "::").split("[", 1)[0]
-                if datatype_str not in self.structs_seen:
-                    base_type = datatype_str.split("::")[-1]
-                    fwds.append(base_type)
-
-            fwds.sort()
-            for f in set(fwds):
-                prefix += f"struct {f};\n"
-
-            prefix += f"struct {getAllowedName(node.name)}" + " {\n"
-            suffix = "};\n"
-            self.structs_seen.append(node.get_fqn("::").split("[", 1)[0])
-        else:
-            datatype = getattr_nn(node.data, "datatype", "")
-            datatype_str = get_type_reference(datatype.split("[", 1)[0], node.root)
-            is_seq = "[" in datatype
-            if is_seq:
-                self.str_buf += f"sequence<{datatype_str}> {getAllowedName(node.name)};\n"
-            else:
-                self.str_buf += f"{datatype_str} {getAllowedName(node.name)};\n"
-
-        self.str_buf += f"{prefix}"
-
+        self.enter_modules(modules)
+        self.str_buf += f"struct {getAllowedName(node.name)}" + " {\n"
         for child in node.children:
-            self.export_data_type_node(child)
-        self.str_buf += suffix
+            datatype = getattr_nn(child.data, "datatype", "")
+            datatype_str = get_type_reference(datatype.split("[", 1)[0], node.root)
+            if "[" in datatype:
+                datatype_str = f"sequence<{datatype_str}>"
+            self.str_buf += f"{datatype_str} {getAllowedName(child.name)};\n"
+        self.str_buf += "};\n"
+        self.structs_seen.append(fqn)
 
 
 def export_idl(file, root, generate_uuids=True, generate_all_idl_features=False):
-- 
2.43.0


From b5f04836bba1170a8dc00648c4b8ff88db025592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:37 +0000
Subject: [PATCH 48/73] fix: leave out empty DDS-IDL modules

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 9762498..9ce5eb9 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -249,6 +249,8 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
     arraysize = getattr(node.data, "arraysize", None)
 
     if isinstance(node.data, VSSDataBranch):
+        if all(isinstance(descendant.data, VSSDataBranch) for descendant in node.descendants):
+            return  # a module must not be empty
         idl_file_buffer.append("module " + getAllowedName(node.name))
         idl_file_buffer.append("{")
         for child in node.children:
@@ -419,6 +421,8 @@ class StructExporter(object):
         self.str_buf += f"struct {getAllowedName(node.name)}" + " {\n"
         for child in node.children:
             datatype = getattr_nn(child.data, "datatype", "")
+            if not datatype:
+                continue
             datatype_str = get_type_reference(datatype.split("[", 1)[0], node.root)
             if "[" in datatype:
                 datatype_str = f"sequence<{datatype_str}>"
-- 
2.43.0


From 4fd078e7cc769f7708edb12fd947cae61388524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:38 +0000
Subject: [PATCH 49/73] fix: share Go structs among instances exactly if they
 have the same members

---
 src/vss_tools/vspec/vssexporters/vss2go.py | 73 +++++++++++-----------
 1 file changed, 38 insertions(+), 35 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2go.py b/src/vss_tools/vspec/vssexporters/vss2go.py
index 90cafa9..3a4dcf2 100644
--- a/src/vss_tools/vspec/vssexporters/vss2go.py
+++ b/src/vss_tools/vspec/vssexporters/vss2go.py
@@ -11,6 +11,7 @@ from __future__ import annotations
 
 import re
 from pathlib import Path
+from typing import Hashable
 
 import rich_click as click
 from anytree import PreOrderIter
@@ -43,55 +44,57 @@ datatype_map = {
 }
 
 
-class NoInstanceRootException(Exception):
-    pass
+def is_instance(node: VSSNode | None) -> bool:
+    return node is not None and isinstance(node.data, VSSDataBranch) and node.data.is_instance
 
 
-def get_instance_root(root: VSSNode, depth: int = 1) -> tuple[VSSNode, int]:
+def get_members(node: VSSNode, structs: dict[str, Hashable]) -> tuple[tuple[str, Hashable], ...]:
     """
-    Getting the root node of a given instance node.
-    Going the tree upwards
+    Names of the children of a node with their datatype or struct
     """
-    if root.parent is None:
-        raise NoInstanceRootException()
-    if isinstance(root.parent.data, VSSDataBranch):
-        if root.parent.data.is_instance:
-            return get_instance_root(root.parent, depth + 1)
-        else:
-            return root.parent, depth
-    else:
-        raise NoInstanceRootException()
-
-
-def add_children_map_entries(root: VSSNode, fqn: str, replace: str, map: dict[str, str]) -> None:
-    """
-    Adding rename map entries for children of a given node
-    """
-    child: VSSNode
-    for child in root.children:
-        child_fqn = child.get_fqn()
-        new_name = child_fqn.replace(fqn, replace)
-        map[child_fqn] = new_name
-        add_children_map_entries(child, fqn, replace, map)
+    children = sorted(node.children, key=lambda child: child.name)
+    return tuple((child.name, get_datatype(child) or structs[child.get_fqn()]) for child in children)
 
 
 def get_instance_mapping(root: VSSNode | None) -> dict[str, str]:
     """
     Constructing a rename map of fqn->new_name.
     The new name has instances stripped and appending "I<N>" instead
-    where N is the depth of the instance
+    where N is the depth of the instance.
+    Nodes that get the same name but differ in their members keep their fqn.
     """
     if root is None:
         return {}
-    instance_map: dict[str, str] = {}
+    names: dict[str, str] = {}
+    bases: dict[str, tuple[str, int]] = {}
     for node in PreOrderIter(root):
-        if isinstance(node.data, VSSDataBranch):
-            if node.data.is_instance:
-                instance_root, depth = get_instance_root(node)
-                new_name = instance_root.get_fqn() + "." + "I" + str(depth)
-                fqn = node.get_fqn()
-                instance_map[fqn] = new_name
-                add_children_map_entries(node, fqn, instance_root.get_fqn(), instance_map)
+        fqn = node.get_fqn()
+        if node.parent is None:
+            names[fqn] = fqn
+            bases[fqn] = (fqn, 0)
+            continue
+        base, depth = bases[node.parent.get_fqn()]
+        if is_instance(node):
+            names[fqn] = f"{base}.I{depth + 1}"
+            bases[fqn] = (base, depth + 1)
+        else:
+            names[fqn] = f"{base}.{node.name}"
+            bases[fqn] = (names[fqn], 0)
+
+    structs: dict[str, Hashable] = {}
+    variants: dict[str, dict[Hashable, str]] = {}
+    instance_map: dict[str, str] = {}
+    branches = [node for node in PreOrderIter(root) if isinstance(node.data, VSSDataBranch)]
+    for node in reversed(branches):
+        fqn = node.get_fqn()
+        structs[fqn] = (names[fqn], get_members(node, structs))
+    for node in branches:
+        fqn = node.get_fqn()
+        variants.setdefault(names[fqn], {}).setdefault(structs[fqn], fqn)
+    for node in branches:
+        fqn = node.get_fqn()
+        same_name = variants[names[fqn]]
+        instance_map[fqn] = names[fqn] if len(same_name) == 1 else same_name[structs[fqn]]
     return instance_map
 
 
-- 
2.43.0


From f202c7128955befe09c98415679baeb68e3b19ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:22 +0000
Subject: [PATCH 50/73] fix: unique and valid names of Go structs and members

---
 src/vss_tools/vspec/vssexporters/vss2go.py | 72 ++++++++++++++++++++--
 1 file changed, 67 insertions(+), 5 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2go.py b/src/vss_tools/vspec/vssexporters/vss2go.py
index 3a4dcf2..fb1ddac 100644
--- a/src/vss_tools/vspec/vssexporters/vss2go.py
+++ b/src/vss_tools/vspec/vssexporters/vss2go.py
@@ -10,6 +10,7 @@
 from __future__ import annotations
 
 import re
+import sys
 from pathlib import Path
 from typing import Hashable
 
@@ -119,6 +120,52 @@ def get_datatype(node: VSSNode) -> str | None:
     return datatype
 
 
+go_keywords = {
+    "break",
+    "case",
+    "chan",
+    "const",
+    "continue",
+    "default",
+    "defer",
+    "else",
+    "fallthrough",
+    "for",
+    "func",
+    "go",
+    "goto",
+    "if",
+    "import",
+    "interface",
+    "map",
+    "package",
+    "range",
+    "return",
+    "select",
+    "struct",
+    "switch",
+    "type",
+    "var",
+}
+go_types = {name.removeprefix("[]") for name in datatype_map.values()}
+go_reserved = go_keywords | go_types | {"init", "main"}
+
+
+def get_go_name(name: str) -> str:
+    """
+    Name of the Go type of a struct
+    """
+    name = name.replace(".", "")
+    return name + "_" if name in go_reserved else name
+
+
+def get_go_type(datatype: str) -> str:
+    if datatype.removeprefix("[]") in go_types:
+        return datatype
+    array = "[]" if datatype.startswith("[]") else ""
+    return array + get_go_name(datatype.removeprefix("[]"))
+
+
 class GoStructMember:
     def __init__(self, name: str, datatype: str) -> None:
         self.name = name
@@ -131,9 +178,10 @@ class GoStruct:
         self.members: list[GoStructMember] = []
 
     def __str__(self) -> str:
-        r = f"type {self.name.replace('.', '')} struct {{\n"
+        r = f"type {get_go_name(self.name)} struct {{\n"
         for member in self.members:
-            r += f"\t{member.name} {member.datatype.replace('.', '')}\n"
+            name = member.name + "_" if member.name in go_keywords else member.name
+            r += f"\t{name} {get_go_type(member.datatype)}\n"
         r += "}\n"
         return r
 
@@ -198,20 +246,24 @@ def get_prefix_strip_conflicts(prefix: str, structs: dict[str, GoStruct]) -> int
     Finds conflicts if we would strip the given prefix from structs
     """
     structs_new: list[str] = []
+    conflicts = 0
     for struct in structs.values():
         split = struct.name.split(".")
         sp = split[0]
         if len(split) == 1:
             structs_new.append(struct.name)
         else:
-            if sp != prefix:
+            new_name = ".".join(split[1:])
+            if sp != prefix or is_only_instance(new_name):
                 structs_new.append(struct.name)
+            elif new_name in go_reserved:
+                conflicts += 1
             else:
                 log.debug(f"Stripping, {prefix=}, {struct.name=}")
-                structs_new.append(".".join(split[1:]))
+                structs_new.append(new_name)
                 log.debug(f"New name: {structs_new[-1]}")
 
-    return len(structs_new) - len(set(structs_new))
+    return conflicts + len(structs_new) - len({get_go_name(name) for name in structs_new})
 
 
 def is_only_instance(s: str) -> bool:
@@ -323,6 +375,16 @@ def cli(
             else:
                 rounds += 1
 
+    names: dict[str, str] = {}
+    for fqn, struct in structs.items():
+        other = names.setdefault(get_go_name(struct.name), fqn)
+        if other != fqn:
+            log.fatal(
+                f"Aborting, because {other} and {fqn} have the same Go name {get_go_name(struct.name)}. "
+                "Consider renaming one of them."
+            )
+            sys.exit(-1)
+
     with open(output, "w") as f:
         f.write(f"package {package}\n\n")
         for struct in structs.values():
-- 
2.43.0


From ac4c9545f2cfd4ae19507323620b500cc275182e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 51/73] fix: write SAMM models as RDF instead of patched text

---
 .../vssexporters/vss2samm/config/config.py    |   3 -
 .../vss2samm/helpers/file_helper.py           |  47 ++++---
 .../vss2samm/helpers/samm_concepts.py         |   7 +-
 .../vss2samm/helpers/ttl_builder_helper.py    | 122 +++++++++---------
 .../vss2samm/helpers/vss_helper.py            |   8 --
 5 files changed, 89 insertions(+), 98 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/config/config.py b/src/vss_tools/vspec/vssexporters/vss2samm/config/config.py
index 22cd806..996c51f 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/config/config.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/config/config.py
@@ -9,9 +9,6 @@
 # General CONFIG variables
 SAMM_TYPE = "samm"
 SAMM_VERSION = "2.1.0"
-# Custom string, which we use to escape " and ' characters in VSS node description/comments
-# Used in file_helper.write_graph_to_file to properly escape characters in filedata, before to write it to a file.
-CUSTOM_ESCAPE_CHAR = "#V2E-ESC-CHAR#"
 
 # CONFIG Variable defined at runtime as per user input and in available init function
 OUTPUT_NAMESPACE = None
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
index 53daa48..1ebb5b4 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
@@ -8,10 +8,33 @@
 
 from pathlib import Path
 
-from rdflib import Graph
+from rdflib import Graph, Literal
+from rdflib.namespace import XSD
+from rdflib.plugin import register
+from rdflib.plugins.serializers.turtle import TurtleSerializer
+from rdflib.serializer import Serializer
 from vss_tools import log
 
-from ..config import config as cfg
+
+class SammTurtleSerializer(TurtleSerializer):
+    """
+    Turtle with all digits of xsd:double values (shorthand notation is limited to six decimals)
+    and with every quote and backslash of multi line texts escaped.
+    """
+
+    def label(self, node, position):
+        if isinstance(node, Literal):
+            if node.datatype == XSD.double:
+                return node._literal_n3(qname_callback=self.getQName)
+
+            if node.language and "\n" in node:
+                text = node.replace("\\", "\\\\").replace('"', '\\"').replace("\r", "\\r")
+                return f'"""{text}"""@{node.language}'
+
+        return super().label(node, position)
+
+
+register("samm-ttl", Serializer, __name__, SammTurtleSerializer.__name__)
 
 
 # Write RDF Graph data to specified file
@@ -23,23 +46,7 @@ def write_graph_to_file(path_to_file: Path, file_name: str, graph: Graph):
         Path.cwd(),
     )  # type: ignore
 
-    filedata = graph.serialize(format="ttl")
-
-    # Clean up entries like: samm:operations "()" OR samm:operations "( )"
-    filedata = filedata.replace(' "()" ', " () ")
-    filedata = filedata.replace(' "( )" ', " ( ) ")
-    filedata = filedata.replace(' "( ', " ( ")
-    filedata = filedata.replace(' )" ', " ) ")
-
-    # Cleanup other escape characters, that were introduced automatically by some of used libraries/tools
-    filedata = filedata.replace("\\", "")
-
-    # Cleanup some CUSTOM ESCAPED, by this script characters.
-    # Usually double and single quotes in node.description or node.comment field
-    filedata = filedata.replace(cfg.CUSTOM_ESCAPE_CHAR, "\\")
-
-    # Cleanup xsd:anyURI with xsd:double
-    filedata = filedata.replace("xsd:anyURI", "xsd:double")
+    filedata = graph.serialize(format="samm-ttl")
 
     # Make sure that output_folder is created with default permissions
     output_folder: Path = Path(path_to_file)
@@ -47,7 +54,7 @@ def write_graph_to_file(path_to_file: Path, file_name: str, graph: Graph):
 
     # Create and write data to ttl file
     output_file: Path = output_folder / f"{file_name}.ttl"
-    file_writer = output_file.open("w")
+    file_writer = output_file.open("w", encoding="utf-8")
     file_writer.write(filedata)
 
     # Add new line and close the file
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/samm_concepts.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/samm_concepts.py
index 9a8a13d..073b758 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/samm_concepts.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/samm_concepts.py
@@ -12,7 +12,6 @@ from enum import Enum
 from rdflib import URIRef
 
 from ..config import config as cfg
-from . import string_helper as str_helper
 from .namespaces import samm_base_namespace, samm_output_namespace
 
 
@@ -61,6 +60,7 @@ class SammConcepts(Enum):
     PREFERRED_NAME = "preferredName"
     PROPERTIES = "properties"
     PROPERTY = "Property"
+    PROPERTY_RELATION = "property"
 
     def __init__(self, vss_name):
         self.ns = f"{samm_base_namespace}:meta-model:{cfg.SAMM_VERSION}#"
@@ -74,11 +74,6 @@ class SammConcepts(Enum):
     def uri_string(self):
         return f"{self.ns}{self.value}"
 
-    @property
-    def samm_name(self):
-        # Make sure that enum value is lc_first
-        return f"samm:{str_helper.str_to_lc_first_camel_case(self.value)}"
-
 
 class SammCConcepts(Enum):
     BASE_CHARACTERISTICS = "baseCharacteristic"
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
index 05e6570..9fbabee 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
@@ -6,10 +6,12 @@
 #
 # SPDX-License-Identifier: MPL-2.0
 
-from typing import Sequence
+from typing import Any, Sequence
 
-from rdflib import Graph, Literal, URIRef
+from rdflib import BNode, Graph, Literal, URIRef
+from rdflib.collection import Collection
 from rdflib.namespace import RDF, XSD
+from rdflib.term import Node
 from vss_tools import log
 from vss_tools.vspec.tree import VSSNode
 
@@ -64,6 +66,30 @@ def __add_node_tuple(graph: Graph, subject_uri: URIRef, predicate_uri: URIRef, o
         return True
 
 
+def __add_node_list(graph: Graph, subject_uri: URIRef, predicate_uri: URIRef, items: Sequence[Node]) -> None:
+    """
+    Helper function to add a Node tuple, whose object is an RDF list of provided items, to specified graph.<br>
+    Skipped when the subject has such a list already.
+
+    Args:
+        graph (Graph): Graph to which the list will be added
+        subject_uri (URIRef): Subject - URIRef of the node which gets the list.
+        predicate_uri (URIRef): Predicate RDF type of the list.
+        items (Sequence[Node]): Contents of the list.
+    """
+
+    if (subject_uri, predicate_uri, None) in graph:
+        return
+
+    list_node: Node = RDF.nil
+
+    if items:
+        list_node = BNode()
+        Collection(graph, list_node, list(items))
+
+    graph.add((subject_uri, predicate_uri, list_node))
+
+
 # Initialize an empty RDF Graph with related bindings and ESMF - AME namespaces
 def setup_graph():
     # Create a Graph
@@ -122,16 +148,16 @@ def add_node_aspect(graph: Graph, vss_node: VSSNode, node_uri: URIRef):
         )
 
         # Add the property instance of this Tree node to its Aspect
-        __add_node_tuple(
+        __add_node_list(
             graph,
             aspect_node_uri,
             SammConcepts.PROPERTIES.uri,
-            Literal(f"( {get_property_uri_from_node_uri(node_uri)} )"),
+            [node_uri],
         )
 
         # Add placeholders for Aspect operations and events
-        __add_node_tuple(graph, aspect_node_uri, SammConcepts.OPERATIONS.uri, Literal("()"))
-        __add_node_tuple(graph, aspect_node_uri, SammConcepts.EVENTS.uri, Literal("()"))
+        __add_node_list(graph, aspect_node_uri, SammConcepts.OPERATIONS.uri, [])
+        __add_node_list(graph, aspect_node_uri, SammConcepts.EVENTS.uri, [])
 
     # ELSE: do nothing since aspect node has already been created
 
@@ -209,16 +235,16 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
                 enum_values = None
                 if hasattr(vss_node.data, "allowed") and vss_node.data.allowed and type(vss_node.data.allowed) is list:
                     # Add allowed values to this node characteristic
-                    enum_values = get_enum_values(vss_node.data.allowed)
+                    enum_values = get_enum_values(vss_node.data.allowed, data_type)
                 elif hasattr(vss_node.data, "enum") and vss_node.data.enum:
                     # NOTE: From VSS 3.0 the 'enum' attribute has been renamed to `allowed`
                     #       However, we will keep this for backwards compatibility.
 
                     # Add ENUM values, as usual, to this node characteristic
-                    enum_values = get_enum_values(vss_node.data.enum)  # type: ignore
+                    enum_values = get_enum_values(vss_node.data.enum, data_type)  # type: ignore
 
                 if enum_values is not None:
-                    __add_node_tuple(graph, node_char_uri, SammCConcepts.VALUES.uri, enum_values)
+                    __add_node_list(graph, node_char_uri, SammCConcepts.VALUES.uri, enum_values)
 
             case SammCConcepts.LIST:
                 # Handle LIST type nodes
@@ -333,10 +359,7 @@ def add_node_leaf_constraint(graph: Graph, node_char_name: str, node_char_uri: U
     __add_node_tuple(graph, constraint_node_uri, RDF.type, SammCConcepts.RANGE_CONSTRAINT.uri)
     __add_node_tuple(graph, constraint_node_uri, SammConcepts.NAME.uri, Literal(constraint_name))
 
-    # Workaround since doubles are serialized as scientific numbers
     data_type = vss_helper.get_data_type(vss_node)
-    if data_type == XSD.double:
-        data_type = XSD.anyURI
 
     if vss_node.data.max is not None:  # type: ignore
         __add_node_tuple(
@@ -376,33 +399,33 @@ def add_node_leaf_constraint(graph: Graph, node_char_name: str, node_char_uri: U
 def add_node_properties(vss_nodes_uris: Sequence[URIRef | tuple], graph: Graph, vss_node_uri: URIRef):
     log.debug("Prepare properties from vss nodes URIs:\n%s\n", vss_nodes_uris)
 
-    node_props = ""
+    node_props: list[Node] = []
 
     for node_uri in vss_nodes_uris:
         if node_uri:
-            property_prefix = " " if node_props else ""
-
             if type(node_uri) is tuple:
                 # Handle node_uri with some additional parameters
                 # EXAMPLE tuple:
                 #   ( NodeURI, ( "optional", True ), ( "payloadName", "givenName" ) )
                 # will result in:
                 #   [ samm:property :prop1; samm:optional true; samm:payloadName "givenName"; ]
-                property_name = ""
-                is_optional = False  # type: ignore
-                payload_name = ""
+                property_uri = None
+                attributes: list[tuple[URIRef, Literal]] = []
 
                 for entry in node_uri:
                     if type(entry) is URIRef:
-                        property_name = get_property_uri_from_node_uri(entry)
+                        property_uri = entry
 
                     elif type(entry) is tuple:
                         if entry[0] == "optional":
-                            is_optional = entry[1] is True
+                            if entry[1] is True:
+                                attributes.append((SammConcepts.OPTIONAL.uri, Literal(True)))
 
                         elif entry[0] == "payloadName":
                             # Make sure that payload name starts with lower case
-                            payload_name = str_to_lc_first_camel_case(entry[1])
+                            attributes.append(
+                                (SammConcepts.PAYLOAD_NAME.uri, Literal(str_to_lc_first_camel_case(entry[1])))
+                            )
 
                         else:
                             log.warning(
@@ -417,39 +440,29 @@ def add_node_properties(vss_nodes_uris: Sequence[URIRef | tuple], graph: Graph,
                             entry,
                         )
 
-                if property_name:
-                    property_name = f"{SammConcepts.PROPERTY.samm_name} {property_name}"
-                    is_optional = f"; {SammConcepts.OPTIONAL.samm_name} true" if is_optional else ""  # type: ignore
+                if property_uri is not None:
+                    if attributes:
+                        property_node = BNode()
+                        graph.add((property_node, SammConcepts.PROPERTY_RELATION.uri, property_uri))
 
-                    if payload_name:
-                        payload_name = f'; {SammConcepts.PAYLOAD_NAME.samm_name} "{payload_name}"'
-                    else:
-                        payload_name = ""
+                        for attribute_uri, value in attributes:
+                            graph.add((property_node, attribute_uri, value))
 
-                    if is_optional or payload_name:
-                        property = f"[ {property_name}{is_optional}{payload_name} ]"
-                    else:
-                        property = property_name
+                        node_props.append(property_node)
 
-                    node_props += property_prefix + property
+                    else:
+                        node_props.append(property_uri)
 
             elif type(node_uri) is URIRef:
-                node_props += property_prefix + get_property_uri_from_node_uri(node_uri)
+                node_props.append(node_uri)
 
             else:
                 log.warning("Not supported type: '%s' for Node URI: '%s'.", type(node_uri), node_uri)
 
-    # Remove trailing white space and set node_props in the form: ( ... )
-    node_props = "( {} )".format(node_props.strip())
-
     log.debug("Add properties URIs to vss node URI: '%s'\n  -- properties:\n%s\n", vss_node_uri, node_props)
 
     # Add properties to the specified vss_node_uri
-    __add_node_tuple(graph, vss_node_uri, SammConcepts.PROPERTIES.uri, Literal(node_props))
-
-
-def get_property_uri_from_node_uri(vss_node_uri: URIRef):
-    return f":{str_to_lc_first_camel_case(vss_node_uri.replace(VSSConcepts.EMPTY.uri, ''))}"
+    __add_node_list(graph, vss_node_uri, SammConcepts.PROPERTIES.uri, node_props)
 
 
 def get_node_characteristic_name(node_uri: URIRef, has_limits: bool):
@@ -461,25 +474,12 @@ def get_node_characteristic_name(node_uri: URIRef, has_limits: bool):
     return str_to_uc_first_camel_case(node_name + characteristic_name_suffix)
 
 
-# Helper function to convert a list of strings into TTL formatted ENUM VALUES list
-# in the form: ( "value1" "value2" ... "value#" )
-# TODO-NOTE: the collection_to_process is provided from VSSNode.allowed, which is currently defined as str.
-#            However, ALL allowed definitions in VSS are set as list of strings.
-#            For example check VSS::FuelSystem::SupportedFuelTypes::allowed field.
-#
-#            We might need to further refactor the VssNote.allowed field so it has the correct type: list[str]
-#
-#            For the moment, we define the collection_to_process as: list[str] | str, so to pass the mypy check.
-def get_enum_values(collection_to_process: list[str] | str):
-    enum_values = ""
-
-    for value in collection_to_process:
-        if type(value) is str:
-            enum_values += '"' + value + '" '
-        else:
-            enum_values += value + " "
-
-    return Literal(f"( {enum_values.strip()} )")
+# Helper function to convert the allowed values of a VSS node into a list of Literals of the node's data type
+def get_enum_values(collection_to_process: list[Any], data_type: URIRef) -> list[Literal]:
+    return [
+        Literal(value) if data_type == XSD.string else Literal(value, datatype=data_type)
+        for value in collection_to_process
+    ]
 
 
 def add_node_instances(graph: Graph, instances_dict_tree: dict, node_char_uri: URIRef):
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index 63ec712..f461096 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -16,7 +16,6 @@ from vss_tools.vspec.datatypes import Datatypes
 from vss_tools.vspec.model import NodeType, VSSDataBranch
 from vss_tools.vspec.tree import VSSNode
 
-from ..config import config as cfg
 from .data_types_and_units import DataTypes, DataUnits
 from .samm_concepts import SammCConcepts, SammConcepts
 from .string_helper import str_to_lc_first_camel_case, str_to_uc_first_camel_case
@@ -232,10 +231,6 @@ def get_node_description(vss_node: VSSNode) -> str:
         and vss_node.data.description
         and len(vss_node.data.description.strip()) > 0
     ):
-        if '"' in vss_node.data.description:
-            # Escape double quotes within vss_node.description
-            vss_node.data.description = vss_node.data.description.replace('"', f'{cfg.CUSTOM_ESCAPE_CHAR}"')
-
         # Set 3 spaces spacer, so to align 'VSS path:' with 'Description:'
         spacer = "    "
         description = f"\n\nDescription: {vss_node.data.description}"
@@ -243,9 +238,6 @@ def get_node_description(vss_node: VSSNode) -> str:
     # NOTE: there is also a vss_node.comment field which also holds some details
     #       Add the vss_node.comment to its description
     if hasattr(vss_node.data, "comment") and vss_node.data.comment and len(vss_node.data.comment.strip()) > 0:
-        if '"' in vss_node.data.comment:
-            vss_node.data.comment = vss_node.data.comment.replace('"', f'{cfg.CUSTOM_ESCAPE_CHAR}"')
-
         # Use the 3 empty spaces spacer, when there is description,
         # otherwise set it to align 'VSS path:' with 'Comment:'
         spacer = spacer if description else " "
-- 
2.43.0


From b83377e23c4136fe212bfe073993fdc2e13122e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 52/73] fix: select SAMM signals by whole path elements

---
 .../vssexporters/vss2samm/helpers/vss_helper.py   | 15 +++++++++------
 .../vspec/vssexporters/vss2samm/vss2samm.py       |  5 +++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index f461096..45827d4 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -159,7 +159,7 @@ def is_vss_node_selected_for_processing(selected_signals_paths: list[str], vss_n
         return True
 
     # VSSNode get_fqn returns the VSS path in form: PARENT_NAME.PATH.TO.NODE.NODE_NAME
-    vss_node_path = vss_node.get_fqn()
+    vss_node_path = vss_node.get_fqn().split(".")
     node_is_selected = False
 
     # NOTE: if the expand_opt is used in vss2samm exporter,
@@ -172,9 +172,9 @@ def is_vss_node_selected_for_processing(selected_signals_paths: list[str], vss_n
     #           Vehicle.Cabin.Door.Window.Position
 
     for selected_signal_path in selected_signals_paths:
-        node_is_selected = selected_signal_path.startswith(vss_node_path) or vss_node_path.startswith(
-            selected_signal_path
-        )
+        # A node is selected by its own path and by the path of any of its parent branches
+        selected_path = selected_signal_path.split(".")
+        node_is_selected = vss_node_path[: len(selected_path)] == selected_path
 
         if node_is_selected:
             break
@@ -193,8 +193,11 @@ def filter_vss_tree_for_deletion(vss_node: VSSNode, selected_paths: list[str]) -
 
             children_to_delete = len(list(filter(lambda n: n.get_vss_data().delete, vss_node.children)))
 
-            if len(vss_node.children) == children_to_delete:
-                # Mark this node for deletion since none of its children have been selected for processing
+            if len(vss_node.children) == children_to_delete and not is_vss_node_selected_for_processing(
+                selected_paths, vss_node
+            ):
+                # Mark this node for deletion since neither itself,
+                # nor any of its children have been selected for processing
                 vss_node.data.delete = True
 
             # TODO: if needed, add support for filtering of instances
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
index 76925b1..01fcafa 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
@@ -205,8 +205,9 @@ def cli(
     if signals_file:
         log.info("Using signals from:\n    '%s'\n", signals_file)
 
-        with open(signals_file, "r") as f:
-            included_signals_input = f.read().splitlines()
+        with open(signals_file, "r", encoding="utf-8") as f:
+            # Ignore empty lines as these do not select any signal
+            included_signals_input = [line.strip() for line in f if line.strip()]
 
     else:
         log.info("No signals selected.\nCreating model for the whole VSS tree.\n")
-- 
2.43.0


From e6f0d9f50084f07a6ecee50d37e0dd6878860f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 53/73] fix: keep SAMM defaults that are zero, false or empty

---
 .../vss2samm/helpers/ttl_builder_helper.py             |  6 +++---
 .../vspec/vssexporters/vss2samm/helpers/vss_helper.py  | 10 +++++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
index 9fbabee..2ad083f 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
@@ -223,7 +223,7 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
                 # Handle ENUM type nodes
                 log.debug("  -- set node ENUM values")
 
-                if vss_node.data.default:  # type: ignore
+                if vss_helper.has_single_default(vss_node):
                     __add_node_tuple(
                         graph,
                         node_char_uri,
@@ -271,7 +271,7 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
 
                     rdf_type = SammConcepts.CHARACTERISTIC
 
-                if hasattr(vss_node.data, "default") and vss_node.data.default:
+                if vss_helper.has_single_default(vss_node):
                     __add_node_tuple(
                         graph,
                         node_uri,
@@ -283,7 +283,7 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
                 # Handle CHARACTERISTIC type nodes
                 log.debug(" -- set regular node values")
 
-                if hasattr(vss_node.data, "default") and vss_node.data.default:
+                if vss_helper.has_single_default(vss_node):
                     if (
                         hasattr(vss_node.data, "unit")
                         and vss_node.data.unit
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index 45827d4..ca3cc62 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -267,6 +267,14 @@ def has_constraints(vss_node: VSSNode) -> bool:
     )
 
 
+# Check whether specified vss_node has a default, which can be set as value of its data type.
+# NOTE: default value of an array is a list, for which there is no literal
+def has_single_default(vss_node: VSSNode) -> bool:
+    default = getattr(vss_node.data, "default", None)
+
+    return default is not None and not isinstance(default, list)
+
+
 def get_instances_dict_tree(vss_node_instances: list | None, node_instance_name: str) -> dict[str, Any]:
     log.debug("Create instances node tree for node instance name: '%s'.", node_instance_name)
 
@@ -425,7 +433,7 @@ def get_node_rdf_type(vss_node: VSSNode) -> SammConcepts | SammCConcepts:
     if hasattr(vss_node.data, "allowed") and vss_node.data.allowed and type(vss_node.data.allowed) is list:
         # NOTE: ENUM does not have defaultValue
         #       Instead defaultValue is part of STATE characteristic which inherits from ENUM
-        return SammCConcepts.ENUM if not vss_node.data.default else SammCConcepts.STATE  # type: ignore
+        return SammCConcepts.STATE if has_single_default(vss_node) else SammCConcepts.ENUM
 
     elif hasattr(vss_node.data, "datatype") and vss_node.data.datatype and vss_node.data.datatype.endswith("[]"):
         return SammCConcepts.LIST
-- 
2.43.0


From 1e5090936fd9a0b3b368ca33eaa2efd38d0e1b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:17 +0000
Subject: [PATCH 54/73] fix: build SAMM instances from the instances of the
 tree

---
 .../vss2samm/helpers/ttl_builder_helper.py    | 167 ++++++------------
 .../vss2samm/helpers/ttl_helper.py            |  23 ++-
 .../vss2samm/helpers/vss_helper.py            | 146 +++------------
 3 files changed, 103 insertions(+), 233 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
index 2ad083f..f76924f 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
@@ -482,97 +482,74 @@ def get_enum_values(collection_to_process: list[Any], data_type: URIRef) -> list
     ]
 
 
-def add_node_instances(graph: Graph, instances_dict_tree: dict, node_char_uri: URIRef):
-    instance_char_uri = None
-
-    if instances_dict_tree:
-        log.debug("Build nodes from instances dict tree: '%s'", instances_dict_tree["name"])
-
-        # Build Node Instance as characteristic which then will be added to the corresponding node_uri
-        node_instance_name = str_to_uc_first_camel_case(instances_dict_tree["name"] + "Instance")
-        instance_char_uri, instance_entity_uri = add_node_instance_characteristic_with_entity(graph, node_instance_name)
-
-        instance_entity_properties = []
-        skip_siblings_child_nodes = False
-
-        # Populate the node_instance tree graph
-        for instance in instances_dict_tree["children"]:
-            log.debug(
-                "Build ttl node for instance: '%s'\n  -- type: '%s'\n  -- path: '%s'",
-                instance["name"],
-                instance["type"],
-                instance["path"],
-            )
-
-            if type(instance) is dict and instance["type"] == "branch":
-                log.debug("Build instance path: '%s' as branch node", instance["path"])
-
-                # To make sure we have unique nodes, we use the instance path, similar to VSSNode ttl_name
-                ni_path_name = instance["path"].replace(".", "")
-                ni_char_name = str_to_uc_first_camel_case(ni_path_name)
-
-                ni_prop_uri = ""
-                ni_type_name = ""
-
-                if instance["instance_type"]:
-                    # This instance is from a specific type.
-                    # For example: instances Row1, Row2, ..., Row# will have an instance_type: Row
-                    #
-                    # Such instances should share a common characteristic,
-                    # i.e. if the instance is DoorRow1, then its characteristic should be: DoorRow,
-                    # which later will be shared with all other DoorRow# instances as their shared Characteristic
-
-                    # Instance Type should be prefixed by its parent name to make it more unique, similar to ttl_name
-                    ni_type_name = "{}{}".format(instance["parent"]["name"], instance["instance_type"])
-                    type_char_name = str_to_uc_first_camel_case(ni_type_name)
-                    type_char_uri, type_entity_uri = add_node_instance_characteristic_with_entity(graph, type_char_name)
+# Build instance(s) node(s) of a VSS node branch.
+#   instances_tree  - tree of instances as returned from vss_helper.get_instances_tree
+#   node_char_uri   - characteristic of the VSS node, which will become characteristic of each of its instances
+#   node_properties - other properties of the VSS node, which are not part of its instances
+def add_node_instances(graph: Graph, instances_tree: dict, node_char_uri: URIRef, node_properties: Sequence[tuple]):
+    log.debug("Build nodes from instances tree: '%s'", instances_tree["name"])
+
+    # Build Node Instance as characteristic which then will be added to the corresponding node_uri
+    node_instance_name = str_to_uc_first_camel_case(instances_tree["name"] + "Instance")
+    instance_char_uri, instance_entity_uri = add_node_instance_characteristic_with_entity(graph, node_instance_name)
+
+    instance_properties = get_instance_properties(
+        graph, instances_tree["children"], instances_tree["name"], node_char_uri
+    )
 
-                    # In this case, the created type_entity will represent a common node for each instance of that type.
-                    # Idea is that we can share common type node like characteristic for instances of the same type.
-                    ni_entity_uri = type_entity_uri
+    add_node_properties([*instance_properties, *node_properties], graph, instance_entity_uri)
 
-                    ni_prop_uri = add_node_instance_property(graph, ni_path_name, type_char_uri)
+    return instance_char_uri
 
-                else:
-                    # If the current instance does not have instance_type, just build it as usual
-                    ni_char_uri, ni_entity_uri = add_node_instance_characteristic_with_entity(graph, ni_char_name)
-                    ni_prop_uri = add_node_instance_property(graph, ni_path_name, ni_char_uri)
-
-                    # Make sure to turn of skip_siblings_child_nodes,
-                    # to handle properly children of the current instance
-                    skip_siblings_child_nodes = False
-
-                # Add created instance node uri to its entity properties.
-                # NOTE: All instance child nodes should be optional
-                instance_entity_properties.append((ni_prop_uri, ("optional", True), ("payloadName", instance["name"])))
-
-                if not skip_siblings_child_nodes:
-                    # Build instance - entity properties (children) nodes of current instance
-                    add_instance_entity_properties(
-                        graph, instance["children"], ni_type_name, node_char_uri, ni_entity_uri
-                    )
 
-                    if ni_type_name:
-                        # Set flag to skip adding properties for instance_typed nodes.
-                        # This is to avoid adding of duplicate properties
-                        # of instances of same type to their main - type node
-                        skip_siblings_child_nodes = True
+# Build property nodes for provided instances. Their names start with specified prefix
+def get_instance_properties(
+    graph: Graph, instances: list[dict], name_prefix: str, node_char_uri: URIRef
+) -> list[tuple]:
+    properties: list[tuple] = []
+    type_characteristics: dict[str, URIRef] = {}
 
-            elif type(instance) is dict and instance["type"] == "attribute":
-                # Attribute instance is like a VSSNode leaf node
-                log.debug("Build instance path: '%s' as leaf node.", instance["path"])
+    for instance in instances:
+        # To make sure we have unique nodes, we use the instance path, similar to VSSNode ttl_name
+        instance_name = name_prefix + instance["name"]
 
-                leaf_path_name = instance["path"].replace(".", "")
-                leaf_uri = add_node_instance_property(graph, leaf_path_name, node_char_uri)
+        if not instance["children"]:
+            # Last level instance is linked to the VSS defined node (characteristic)
+            # FOR EXAMPLE: Door.Row1.DriverSide instance will have a DoorCharacteristic node as defined in VSS.
+            instance_char_uri = node_char_uri
+
+        elif instance["instance_type"] in type_characteristics:
+            instance_char_uri = type_characteristics[instance["instance_type"]]
+
+        else:
+            # If this instance is from a specific type.
+            # For example: instances Row1, Row2, ..., Row# will have an instance_type: Row
+            #
+            # Such instances should share a common characteristic,
+            # i.e. if the instance is DoorRow1, then its characteristic should be: DoorRow,
+            # which later will be shared with all other DoorRow# instances as their shared Characteristic
+            #
+            # If the current instance does not have instance_type, just build it as usual
+            char_name = name_prefix + instance["instance_type"] if instance["instance_type"] else instance_name
+            instance_char_uri, instance_entity_uri = add_node_instance_characteristic_with_entity(
+                graph, str_to_uc_first_camel_case(char_name)
+            )
 
-                instance_entity_properties.append((leaf_uri, ("optional", True), ("payloadName", instance["name"])))
+            if instance["instance_type"]:
+                type_characteristics[instance["instance_type"]] = instance_char_uri
 
-            else:
-                log.warning("Instance: '%s' with type: '%s' cannot be processed yet.\n", instance, type(instance))
+            add_node_properties(
+                get_instance_properties(graph, instance["children"], char_name, node_char_uri),
+                graph,
+                instance_entity_uri,
+            )
 
-        add_node_properties(instance_entity_properties, graph, instance_entity_uri)
+        # Instance properties should be optional and with payloadName without its parent prefix.
+        # For more details check function: add_node_properties
+        instance_uri = add_node_instance_property(graph, instance_name, instance_char_uri)
+        properties.append((instance_uri, ("optional", True), ("payloadName", instance["name"])))
 
-    return instance_char_uri
+    return properties
 
 
 # Helper function to support handling of creation of instance nodes for a VSSNode
@@ -623,31 +600,3 @@ def add_node_instance_property(graph: Graph, instance_name: str, instance_char_u
     __add_node_tuple(graph, property_uri, SammConcepts.CHARACTERISTIC_RELATION.uri, instance_char_uri)
 
     return property_uri
-
-
-def add_instance_entity_properties(
-    graph: Graph, instance_children: list[dict], instance_type: str, characteristic_uri: URIRef, entity_uri: URIRef
-):
-    if instance_children and len(instance_children) > 0:
-        entity_properties = []
-
-        for child_instance in instance_children:
-            child_path_name = ""
-            if instance_type:
-                # Use parent instance type + name for a child name
-                child_path_name = "{}{}".format(instance_type, child_instance["name"])
-            else:
-                # Use usual child path for its name, similar to VSSNode ttl_name
-                child_path_name = child_instance["path"].replace(".", "")
-
-            # Add node instance as property node with characteristic of its main - parent VSSNode
-            # NOTE: at this point each instance property node will be linked to the VSS defined node (characteristic)
-            # FOR EXAMPLE: Door.Row1.DriverSide instance will have a DoorCharacteristic node as defined in VSS.
-            child_uri = add_node_instance_property(graph, child_path_name, characteristic_uri)
-
-            # Instance child properties should be optional and with payloadName without its parent prefix.
-            # For more details check function: add_node_properties
-            entity_properties.append((child_uri, ("optional", True), ("payloadName", child_instance["name"])))
-
-        # Add child properties nodes to this instance's entity node
-        add_node_properties(entity_properties, graph, entity_uri)
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
index 7d1791d..f969042 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
@@ -92,6 +92,8 @@ def handle_vss_node(path_to_ttl: Path, graph: Graph, vss_node: VSSNode, is_aspec
     if isinstance(vss_node.data, VSSDataBranch):
         node_char_uri = ttl_builder.add_node_branch_characteristic(graph, vss_node, node_uri)
 
+        node_properties = handle_branch_node(path_to_ttl, graph, vss_node, split_vss, node_uri, node_char_uri)
+
         if vss_node.data.instances:
             # Build instance(s) node(s) for the current vss_node ONLY when node is NOT EXPANDED.
             # Otherwise, the expanded child nodes will cause conflicts with generated instance nodes
@@ -101,9 +103,9 @@ def handle_vss_node(path_to_ttl: Path, graph: Graph, vss_node: VSSNode, is_aspec
             #       will become a characteristic of each of this vss_node's instance(s)
             node_name = get_node_name_from_vspec_uri(node_uri)
 
-            instances_dict_tree = vss_helper.get_instances_dict_tree(vss_node.data.instances, node_name)  # type: ignore
+            instances_tree = vss_helper.get_instances_tree(vss_node.data.instances, node_name)
 
-            node_instance_uri = ttl_builder.add_node_instances(graph, instances_dict_tree, node_char_uri)
+            node_instance_uri = ttl_builder.add_node_instances(graph, instances_tree, node_char_uri, node_properties)
 
             # Link current vss_node to its instance uri, as if the instance uri is characteristic of this vss_node
             graph.add((node_uri, SammConcepts.CHARACTERISTIC_RELATION.uri, node_instance_uri))
@@ -112,17 +114,18 @@ def handle_vss_node(path_to_ttl: Path, graph: Graph, vss_node: VSSNode, is_aspec
             # Link the characteristic uri to current vss_node's node_uri as usual
             graph.add((node_uri, SammConcepts.CHARACTERISTIC_RELATION.uri, node_char_uri))
 
-        handle_branch_node(path_to_ttl, graph, vss_node, split_vss, node_uri, node_char_uri)
-
-    if vss_node.is_leaf:
+    else:
         ttl_builder.add_node_leaf(graph, node_uri, vss_node)
 
     return node_uri
 
 
+# Build child nodes of a branch and add them to the Entity of this branch.
+# Child nodes of a branch with instances, which should not be instantiated i.e. do not belong to each of its instances,
+# are not added to the Entity but returned.
 def handle_branch_node(
     path_to_ttl: Path, graph: Graph, vss_node: VSSNode, split_vss: bool, node_uri: URIRef, node_char_uri: URIRef
-):
+) -> list[tuple]:
     log.debug("Handle branch node for VSSNode: '%s'", vss_node.name)
 
     # Create node Entity to this vss_node branch
@@ -143,6 +146,7 @@ def handle_branch_node(
 
     # Populate Entity properties if the current vss_node holds any child node
     properties_uris = []
+    not_instantiated_uris = []
 
     for child_node in vss_node.children:
         child_node_uri = None
@@ -161,7 +165,10 @@ def handle_branch_node(
         if child_node_uri and child_node_uri != "DEPRECATED" and str(child_node_uri) != samm_output_namespace:
             # Each property should have payloadName = property name,
             # so to avoid the prefixed ttl_name when generating APIs and JSON payloads
-            properties_uris.append((child_node_uri, ("payloadName", child_node.name)))
+            if vss_node.data.instances and not getattr(child_node.data, "instantiate", True):  # type: ignore
+                not_instantiated_uris.append((child_node_uri, ("payloadName", child_node.name)))
+            else:
+                properties_uris.append((child_node_uri, ("payloadName", child_node.name)))
 
         elif child_node_uri != "DEPRECATED":
             log.warning(
@@ -174,3 +181,5 @@ def handle_branch_node(
     # Add properties to current node_entity_uri
     if len(properties_uris) > 0:
         ttl_builder.add_node_properties(properties_uris, graph, node_entity_uri)
+
+    return not_instantiated_uris
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index ca3cc62..7036d4d 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -7,14 +7,13 @@
 # SPDX-License-Identifier: MPL-2.0
 
 import re
-from ast import literal_eval
 from typing import Any
 
 from rdflib import URIRef
 from vss_tools import log
 from vss_tools.vspec.datatypes import Datatypes
 from vss_tools.vspec.model import NodeType, VSSDataBranch
-from vss_tools.vspec.tree import VSSNode
+from vss_tools.vspec.tree import VSSNode, expand_string
 
 from .data_types_and_units import DataTypes, DataUnits
 from .samm_concepts import SammCConcepts, SammConcepts
@@ -275,138 +274,51 @@ def has_single_default(vss_node: VSSNode) -> bool:
     return default is not None and not isinstance(default, list)
 
 
-def get_instances_dict_tree(vss_node_instances: list | None, node_instance_name: str) -> dict[str, Any]:
+def get_instances_tree(vss_node_instances: list, node_instance_name: str) -> dict[str, Any]:
     log.debug("Create instances node tree for node instance name: '%s'.", node_instance_name)
 
-    parsed_instances = []
+    instances_tree: dict[str, Any] = get_instance_dict(node_instance_name, "")
 
-    if type(vss_node_instances) is list and len(vss_node_instances) > 0:
-        for instance_key in range(len(vss_node_instances)):
-            instance = vss_node_instances[instance_key]
+    # Current level of the tree, to which next instances are to be added.
+    # NOTE: same rules apply as for the expansion of VSS tree instances
+    parents = [instances_tree]
 
-            parsed_instance = parse_instance(instance)
-            parsed_instances.append(parsed_instance)
+    for instance in vss_node_instances:
+        names: list[str] = []
 
-    log.debug("  -- convert parsed_instances: \n%s\n     to a tree now...", parsed_instances)
+        for entry in instance if isinstance(instance, list) else [instance]:
+            # EXAMPLE: Row[2,4] - i.e. rows from 2nd to 4th or: Row2, Row3, Row4
+            names.extend(expand_string(str(entry)))
 
-    node_instance_dict: dict[str, Any] = get_instance_dict(node_instance_name, None, "")
+        # Instances in the form: Name1, Name2, Name3 etc. share a common type: Name
+        instance_type = get_instances_type_from_list(names) if len(names) > 1 else ""
+        added = []
 
-    add_instance_to_dict_tree(node_instance_dict, parsed_instances, "")
+        for parent in parents:
+            for name in names:
+                instance_dict = get_instance_dict(name, instance_type)
+                parent["children"].append(instance_dict)
+                added.append(instance_dict)
+
+        if len(names) > 1 or isinstance(instance, list):
+            # Next entry holds instances of each of these, otherwise it is a sibling of them
+            parents = added
 
     # TODO: maybe try to return a VSSNode(vss_node.name, vss_node_dict)
     #       IF so, this will require further rework on the whole instance node generation
     #       implemented in TTLBuilderHelper::add_node_instances
-    return node_instance_dict
-
-
-def parse_instance(instance_to_parse: str | Any) -> str | list[str] | Any:
-    parsed_instance = None
-
-    if type(instance_to_parse) is str and instance_to_parse.__contains__("[") and instance_to_parse.endswith("]"):
-        # More likely, current instance is in the form: "Row[1,2]" or Row[1,4] or "SomeOtherName[x,y]"
-        # Example: Row[1, 2] or Row[1, 4]
-        parsed_instance = []
-
-        # Take the name of this instance
-        instance_parts = instance_to_parse.split("[")
-        instance_name = instance_parts[0]
-        instance_entries = literal_eval("[" + instance_parts[1])
-
-        if (
-            len(instance_entries) == 2
-            and instance_entries[0] == 1
-            and sum(float(entry).is_integer() for entry in instance_entries) == 2
-        ):
-            # Here instances are set as a range, starting with 1 up to some other number
-            # EXAMPLE: Row[1,4] - i.e. rows from 1st to 4th or: Row1, Row2, Row3, Row4
-            start = instance_entries[0]
-            end = instance_entries[1]
-
-            while start <= end:
-                parsed_instance.append(f"{instance_name}{start}")
-                start += 1
-
-        else:
-            for instance_entry in instance_entries:
-                parsed_instance.append(f"{instance_name}{instance_entry}")
-    else:
-        parsed_instance = instance_to_parse  # type: ignore
-
-    return parsed_instance
+    return instances_tree
 
 
 # Helper function, which builds an instance object dict for specified instance_name,
-# which then can be added to an instances_dict_tree
-def get_instance_dict(instance_name: str, parent_dict: dict | None, instance_type: str) -> dict[str, Any]:
-    name = str_to_uc_first_camel_case(instance_name)
-
-    # Default type is: attribute for a string. Branch is for instance with children
-    instance = {
-        "type": "attribute",
-        "name": name,
-        "children": None,
-        "path": name,
-        "description": "",
+# which then can be added to an instances tree
+def get_instance_dict(instance_name: str, instance_type: str) -> dict[str, Any]:
+    return {
+        "name": str_to_uc_first_camel_case(instance_name),
         "instance_type": instance_type,
-        "parent": parent_dict,
+        "children": [],
     }
 
-    return instance
-
-
-def add_instance_to_dict_tree(parent_dict_tree: dict[str, Any], instance_to_add, instance_type: str) -> None:
-    if type(instance_to_add) is str:
-        # ADD instance to the provided parent_tree
-
-        # Default type is: attribute for a string. Branch is for instance with children
-        instance_dict = get_instance_dict(instance_to_add, parent_dict_tree, instance_type)
-
-        if type(parent_dict_tree) is dict:
-            # Make sure to set parent type to: branch
-            parent_dict_tree["type"] = "branch"
-
-            if not parent_dict_tree["children"]:
-                # Make sure to initialize parent children
-                parent_dict_tree["children"] = []
-
-            # Add path up to this instance node
-            instance_dict["path"] = f"{parent_dict_tree['path']}.{instance_dict['name']}"
-
-            parent_dict_tree["children"].append(instance_dict)
-
-        elif type(parent_dict_tree) is list:
-            # TODO: can we ever get into this point!?!?!?!
-            # Add path up to this instance node
-            # instance["path"] = instance["name"]
-            parent_dict_tree.append(instance_dict)  # type: ignore
-
-        else:
-            log.warning("Provided parent_tree: '%s' must be either a dict or list (array).\n", parent_dict_tree)
-
-    elif type(instance_to_add) is list:
-        # Handle instance_to_add as list of instances to be added to the parent_tree
-        # Call this function recursively to add each instance entry to the provided parent_tree
-
-        # Get instance entries type. If these are in the form: Name1, Name2, Name3 etc
-        # then their type will be: Name, otherwise it will be None
-        instance_type = get_instances_type_from_list(instance_to_add)
-
-        if type(parent_dict_tree) is dict and parent_dict_tree["children"] and len(parent_dict_tree["children"]) > 0:
-            # Add each entry in instance_to_add as a child of the parent_tree["children"]
-            for inst_dict in parent_dict_tree["children"]:
-                for entry in instance_to_add:
-                    add_instance_to_dict_tree(inst_dict, entry, instance_type)
-
-        else:
-            # Add each entry in instance_to_add as sibling in current parent_tree
-            for entry in instance_to_add:
-                add_instance_to_dict_tree(parent_dict_tree, entry, instance_type)
-
-    else:
-        log.warning(
-            "Provided instance_to_add: '%s' type: '%s' is not supported.\n", instance_to_add, type(instance_to_add)
-        )
-
 
 def get_instances_type_from_list(instances_list: list) -> str:
     instance_type = ""
-- 
2.43.0


From a663c2f0c9d9fd009b07c32dd509a928d7d04f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:17 +0000
Subject: [PATCH 55/73] fix: unique names of SAMM elements

---
 .../vss2samm/helpers/ttl_builder_helper.py    | 25 ++++++-------
 .../vss2samm/helpers/vss_helper.py            | 36 ++++++++++++++++++-
 2 files changed, 46 insertions(+), 15 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
index f76924f..0246ea6 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
@@ -558,17 +558,18 @@ def add_node_instance_characteristic_with_entity(graph: Graph, node_name: str):
     #       SammCConcepts.SINGLE_ENTITY instead of SammConcepts.CHARACTERISTIC
 
     # Append the characteristic class (type) to its name uri
-    node_char_uri = get_vspec_uri("{}{}".format(node_name, SammCConcepts.SINGLE_ENTITY.vsso_name))
+    def get_char_name(name: str) -> str:
+        return "{}{}".format(name, SammCConcepts.SINGLE_ENTITY.vsso_name)
 
-    node_entity_name = str_to_uc_first_camel_case(node_name + "Entity")
-    node_entity_uri = get_vspec_uri(node_entity_name)
+    def get_entity_name(name: str) -> str:
+        return str_to_uc_first_camel_case(name + "Entity")
 
-    if __add_node_tuple(graph, node_char_uri, RDF.type, SammCConcepts.SINGLE_ENTITY.uri) is False:
-        # This characteristic is already present, just return its URI and
-        return node_char_uri, node_entity_uri
+    node_name = vss_helper.get_unique_name(node_name, lambda name: {get_char_name(name), get_entity_name(name)})
 
-    # ELSE: continue with node creation as usual
+    node_char_uri = get_vspec_uri(get_char_name(node_name))
+    node_entity_uri = get_vspec_uri(get_entity_name(node_name))
 
+    __add_node_tuple(graph, node_char_uri, RDF.type, SammCConcepts.SINGLE_ENTITY.uri)
     __add_node_tuple(graph, node_char_uri, SammConcepts.NAME.uri, Literal(node_name))
     __add_node_tuple(
         graph, node_char_uri, SammConcepts.PREFERRED_NAME.uri, Literal(str_camel_case_split(node_name), "en")
@@ -584,14 +585,10 @@ def add_node_instance_characteristic_with_entity(graph: Graph, node_name: str):
 
 
 def add_node_instance_property(graph: Graph, instance_name: str, instance_char_uri: URIRef):
-    property_name = str_to_lc_first_camel_case(instance_name)
-    property_uri = get_vspec_uri(property_name)
-
-    if __add_node_tuple(graph, property_uri, RDF.type, SammConcepts.PROPERTY.uri) is False:
-        log.warning("Return: '%s'.\n", property_uri)
-
-        return property_uri
+    instance_name = vss_helper.get_unique_name(instance_name, lambda name: {str_to_lc_first_camel_case(name)})
+    property_uri = get_vspec_uri(str_to_lc_first_camel_case(instance_name))
 
+    __add_node_tuple(graph, property_uri, RDF.type, SammConcepts.PROPERTY.uri)
     __add_node_tuple(
         graph, property_uri, SammConcepts.PREFERRED_NAME.uri, Literal(str_camel_case_split(instance_name), "en")
     )
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index 7036d4d..8847b82 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -7,7 +7,7 @@
 # SPDX-License-Identifier: MPL-2.0
 
 import re
-from typing import Any
+from typing import Any, Callable
 
 from rdflib import URIRef
 from vss_tools import log
@@ -38,6 +38,38 @@ from .string_helper import str_to_lc_first_camel_case, str_to_uc_first_camel_cas
 # as implemented in the should_use_parent_prefix function.
 top_vss_tree_unique_node_names: dict[str, Any] = {}
 
+# Names of all elements of the generated model(s), which are already in use.
+# NOTE: elements of all models share the same namespace
+used_element_names: set[str] = set()
+
+
+# Get specified name, followed by a number if at least one of the elements to be named after it would have the same name
+# as an already existing one.
+#   get_element_names - provides names of the elements, which are based on a name
+def get_unique_name(name: str, get_element_names: Callable[[str], set[str]]) -> str:
+    unique_name = name
+    counter = 1
+
+    while not used_element_names.isdisjoint(get_element_names(unique_name)):
+        counter += 1
+        unique_name = f"{name}{counter}"
+
+    used_element_names.update(get_element_names(unique_name))
+
+    return unique_name
+
+
+# Names of elements, which could be created for a VSSNode with specified ttl_name
+def get_node_element_names(ttl_name: str) -> set[str]:
+    property_name = str_to_lc_first_camel_case(ttl_name)
+
+    return {
+        property_name,
+        str_to_uc_first_camel_case(ttl_name),
+        *(str_to_uc_first_camel_case(property_name + suffix) for suffix in ["Characteristic", "Trait", "Entity"]),
+        *(str_to_uc_first_camel_case(ttl_name + suffix) for suffix in ["BaseCharacteristic", "Constraint"]),
+    }
+
 
 def count_vss_tree_unique_node_names(vss_node: VSSNode) -> None:
     if type(top_vss_tree_unique_node_names) is dict and len(top_vss_tree_unique_node_names.keys()) == 0:
@@ -129,6 +161,8 @@ def set_ttl_name(vss_node: VSSNode, use_parent_prefix: bool, overwrite_ttl_name=
         else:
             vss_node.ttl_name = ttl_name
 
+        vss_node.ttl_name = get_unique_name(vss_node.ttl_name, get_node_element_names)
+
         log.debug("  -- %s node ttl name: '%s'.", "updated" if overwrite_ttl_name else "added", vss_node.ttl_name)
 
 
-- 
2.43.0


From bfbee466efa4369060177da4830905e2c49296e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:17 +0000
Subject: [PATCH 56/73] fix: hour is no second in SAMM units

---
 .../vspec/vssexporters/vss2samm/helpers/data_types_and_units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/data_types_and_units.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/data_types_and_units.py
index ea5db33..9fe3b0f 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/data_types_and_units.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/data_types_and_units.py
@@ -72,7 +72,7 @@ DataUnits = {
     "rpm": get_unit_uri("revolutionsPerMinute"),
     "g/km": get_unit_uri("kilogramPerKilometre"),
     "s": get_unit_uri("secondUnitOfTime"),
-    "h": get_unit_uri("secondUnitOfTime"),
+    "h": get_unit_uri("hourUnitOfTime"),
     "W": get_unit_uri("watt"),
     "cpm": get_unit_uri("cycle"),
     "bpm": get_unit_uri("cycle"),
-- 
2.43.0


From 25458baf8d7364e0c464478e8aa72594dfa263c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 57/73] fix: write SAMM models only after the whole conversion

---
 .../vss2samm/helpers/ttl_helper.py            | 21 +++++++++++++++----
 .../vspec/vssexporters/vss2samm/vss2samm.py   |  4 +++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
index f969042..ecf5333 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
@@ -24,6 +24,11 @@ from .string_helper import str_to_uc_first_camel_case
 
 
 # Parse provided VSSNode to an RDF Graph and write it to a TTL file
+# Location, file name and graph of each parsed Aspect model.
+# NOTE: files are written when all nodes have been parsed, in order to leave no partial output if one of them fails
+parsed_graphs: list[tuple[Path, str, Graph]] = []
+
+
 def parse_vss_tree(path_to_ttl: Path, vss_node: VSSNode, split_vss: bool):
     # Process provided vss_node so to get all of its unique VSSNode names, check if there is any duplicates etc.
     # This will be further used to make sure that we don't get any duplicate nodes in the generated TTL graph(s)
@@ -55,15 +60,23 @@ def parse_vss_tree(path_to_ttl: Path, vss_node: VSSNode, split_vss: bool):
     node_uri = handle_vss_node(path_to_ttl, graph, vss_node, True, split_vss)
 
     if node_uri != "DEPRECATED":
-        # Print graph for current vss_node to a TTL file
+        # Graph for current vss_node is to be printed to a TTL file
         # NOTE: make sure that TTL file name will reflect this graph's Aspect model name, i.e. uc first camel case
-        vss_node_ttl_file = write_graph_to_file(path_to_ttl, str_to_uc_first_camel_case(vss_node.ttl_name), graph)
-
-        log.debug("TTL file for parsed VSS node: '%s' is:\n'%s'\n", vss_node.name, vss_node_ttl_file)
+        parsed_graphs.append((path_to_ttl, str_to_uc_first_camel_case(vss_node.ttl_name), graph))
 
     return node_uri
 
 
+# Print graphs of all parsed nodes to TTL files, each of which is returned.
+def write_parsed_graphs() -> list[Path]:
+    ttl_files = [write_graph_to_file(*parsed_graph) for parsed_graph in parsed_graphs]
+    parsed_graphs.clear()
+
+    log.debug("TTL files for parsed VSS nodes are:\n%s\n", ttl_files)
+
+    return ttl_files
+
+
 def handle_vss_node(path_to_ttl: Path, graph: Graph, vss_node: VSSNode, is_aspect: bool, split_vss: bool):
     log.debug(
         "Handle VSSNode: '%s'\n  -- node VSS path: '%s'\n  -- is_aspect: '%s'\n",
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
index 01fcafa..8968f93 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
@@ -245,7 +245,6 @@ def cli(
     parsed_tree_uri = None
 
     if vss_helper is not None and ttl_helper is not None:
-        # NOTE: below used parse_vss_tree function will store generated RDF Graph to dedicated TTL file
         if len(included_signals_input) > 0:
             # Filter the VSS tree based on included_signals_input
             vss_helper.filter_vss_tree_for_deletion(vss_tree, included_signals_input)
@@ -265,6 +264,9 @@ def cli(
             # Work with vss_tree as usual.
             parsed_tree_uri = ttl_helper.parse_vss_tree(target_folder, vss_tree, split)
 
+        # Store each generated RDF Graph to dedicated TTL file
+        ttl_helper.write_parsed_graphs()
+
         if parsed_tree_uri != "DEPRECATED":
             log.info(
                 "\nVSS to ESMF - SAMM processing - COMPLETED\n\nAll ttl files are located in: '%s'\n\n", target_folder
-- 
2.43.0


From c2696df2a49d1215c7bbeb513632e6346ff7e123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 58/73] fix: keep 0 and 1 in the VSS version of SAMM models

---
 src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
index 8968f93..65f945f 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
@@ -68,7 +68,7 @@ def __get_version_vss(vss_tree: VSSNode) -> str:
                     v_child.name in ["Major", "Minor", "Patch"]
                     and hasattr(v_child.data, "default")
                     and type(v_child.data.default) is int
-                    and v_child.data.default > 1
+                    and v_child.data.default >= 0
                 ):
                     match v_child.name:
                         case "Major":
-- 
2.43.0


From b4b6d8a247daf8b5d76886839791ac374707d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 59/73] fix: a node name that ends with a line break violates
 the naming rules

---
 src/vss_tools/vspec/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index b19ebb5..3a38bd7 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -285,7 +285,7 @@ class VSSNode(Node):  # type: ignore[misc]
         """
         violations = []
         log.debug(f"Checking node name compliance for {self.name}")
-        camel_case_pattern = re.compile("[A-Z][A-Za-z0-9]*$")
+        camel_case_pattern = re.compile(r"[A-Z][A-Za-z0-9]*\Z")
         for node in PreOrderIter(self):
             match = re.match(camel_case_pattern, node.name)
             if not match:
-- 
2.43.0


From 308b569e10d5733b4c56d65f07c7a1e515088d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:00 +0000
Subject: [PATCH 60/73] fix: binary test parsers without a readable tree file

Both tools used the tree although there was none, and the C tool its
first argument although it was not given.
---
 binary/c_parser/testparser.c   | 8 +++++++-
 binary/go_parser/testparser.go | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/binary/c_parser/testparser.c b/binary/c_parser/testparser.c
index 04aa0f0..78ddce9 100644
--- a/binary/c_parser/testparser.c
+++ b/binary/c_parser/testparser.c
@@ -58,9 +58,15 @@ void showNodeData(long currentNode, int currentChild) {
 }
 
 int main(int argc, char** argv) {
-
+    if (argc != 2) {
+        printf("testparser command line: ./testparser filename\n");
+        return 1;
+    }
     vspecfile = argv[1];
     rootNode = VSSReadTree(vspecfile);
+    if (rootNode == 0) {
+        return 1;
+    }
 
     char traverse[10];
     currentNode = rootNode;
diff --git a/binary/go_parser/testparser.go b/binary/go_parser/testparser.go
index 4c598e6..49a627c 100644
--- a/binary/go_parser/testparser.go
+++ b/binary/go_parser/testparser.go
@@ -64,6 +64,9 @@ func main() {
 	os.Exit(1)
     }
     root = parser.VSSReadTree(os.Args[1])
+    if (root == nil) {
+        os.Exit(1)
+    }
     fmt.Printf("VSS tree root name = %s\n", parser.VSSgetName(root))
     var traverse string
     currentNode := root
-- 
2.43.0


From d7c3498ba0e796e2a534942462c7f2aae4193a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:00 +0000
Subject: [PATCH 61/73] fix: end of input and long input words in the binary
 test parsers

At the end of the input the tools repeated the last command forever (Go:
panicked if there was none), and the C tool wrote longer words beyond the
end of its buffers.
---
 binary/c_parser/testparser.c   | 25 ++++++++++++++++++++-----
 binary/go_parser/testparser.go |  4 ++++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/binary/c_parser/testparser.c b/binary/c_parser/testparser.c
index 78ddce9..ea62f05 100644
--- a/binary/c_parser/testparser.c
+++ b/binary/c_parser/testparser.c
@@ -21,6 +21,13 @@ long currentNode;
 long rootNode;
 char* vspecfile;
 
+// Reads the next word of the input, what does not fit is skipped. Returns false at the end of the input.
+bool readWord(char* word, int size) {
+    char format[32];
+    snprintf(format, sizeof(format), "%%%ds%%*[^ \t\r\n]", size - 1);
+    return scanf(format, word) > 0;
+}
+
 char* getTypeName(nodeTypes_t type) {
     switch (type) {
         case SENSOR:
@@ -75,7 +82,9 @@ int main(int argc, char** argv) {
     printf("\nThe following parser commands are available: 'u'(p)p/'d'(own)/'l'(eft)/'r'(ight)/s(earch)/m(etadata subtree)/n(odelist)/(uu)i(dlist)/w(rite to file)/h(elp), or any other to quit\n");
     while (true) {
         printf("\n'u'/'d'/'l'/'r'/'s'/'m'/'n'/'i'/'w'/'h', or any other to quit: ");
-        scanf("%s", traverse);
+        if (!readWord(traverse, sizeof(traverse))) {
+            return 0;
+        }
         switch (traverse[0]) {
             case 'u':  //up
                 if (VSSgetParent(currentNode) != 0) {
@@ -107,7 +116,9 @@ int main(int argc, char** argv) {
             {
                 char searchPath[MAXCHARSPATH];
                 printf("\nPath to resource(s): ");
-                scanf("%s", searchPath);
+                if (!readWord(searchPath, sizeof(searchPath))) {
+                    return 0;
+                }
                 searchData_t searchData[MAXFOUNDNODES];
                 int foundResponses = VSSSearchNodes(searchPath, rootNode, MAXFOUNDNODES, searchData, true, true, 0, NULL, NULL);
                 printf("\nNumber of elements found=%d\n", foundResponses);
@@ -134,10 +145,14 @@ int main(int argc, char** argv) {
             {
                 char subTreePath[MAXCHARSPATH];
                 printf("\nPath to subtree node: ");
-                scanf("%s", subTreePath);
-                int depth;
+                if (!readWord(subTreePath, sizeof(subTreePath))) {
+                    return 0;
+                }
+                int depth = 0;
                 printf("\nSubtree depth: ");
-                scanf("%d", &depth);
+                if (scanf("%d", &depth) == EOF) {
+                    return 0;
+                }
                 searchData_t searchData[MAXFOUNDNODES];
                 int foundResponses = VSSSearchNodes(subTreePath, rootNode, MAXFOUNDNODES, searchData, false, false, 0, NULL, NULL);
                 long subtreeNode = (long)(&(searchData[foundResponses-1]))->foundNodeHandles;
diff --git a/binary/go_parser/testparser.go b/binary/go_parser/testparser.go
index 49a627c..8be69c2 100644
--- a/binary/go_parser/testparser.go
+++ b/binary/go_parser/testparser.go
@@ -75,7 +75,11 @@ func main() {
     fmt.Printf("\nThe following parser commands are available: 'u'(p)p/'d'(own)/'l'(eft)/'r'(ight)/s(earch)/m(etadata subtree)/n(odelist)/(uu)i(dlist)/w(rite to file)/h(elp), or any other to quit\n")
     for {
         fmt.Printf("\n'u'/'d'/'l'/'r'/'s'/'m'/'n'/'i'/'w'/'h', or any other to quit: ")
+        traverse = ""
         fmt.Scanf("%s", &traverse)
+        if (len(traverse) == 0) {
+            os.Exit(0)
+        }
         switch (traverse[0]) {
             case 'u':  //up
                 if (parser.VSSgetParent(currentNode) != nil) {
-- 
2.43.0


From 939140cdb20b45068ff7ae6d8ecb6332e464e085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 62/73] fix: subtree metadata of the binary test parsers
 without a match or with a large depth

Without a matching node the tools used the element before the first of
the result, and the C tool built search paths beyond the end of its buffer.
---
 binary/c_parser/testparser.c   | 6 +++++-
 binary/go_parser/testparser.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/binary/c_parser/testparser.c b/binary/c_parser/testparser.c
index ea62f05..a9df70a 100644
--- a/binary/c_parser/testparser.c
+++ b/binary/c_parser/testparser.c
@@ -155,10 +155,14 @@ int main(int argc, char** argv) {
                 }
                 searchData_t searchData[MAXFOUNDNODES];
                 int foundResponses = VSSSearchNodes(subTreePath, rootNode, MAXFOUNDNODES, searchData, false, false, 0, NULL, NULL);
+                if (foundResponses == 0) {
+                    printf("\nNumber of elements found=0\n");
+                    break;
+                }
                 long subtreeNode = (long)(&(searchData[foundResponses-1]))->foundNodeHandles;
                 char subTreeRootName[MAXCHARSPATH];
                 strcpy(subTreeRootName, VSSgetName((long)(&(searchData[foundResponses-1]))->foundNodeHandles));
-                for (int i = 1 ; i < depth ; i++) {
+                for (int i = 1 ; i < depth && strlen(subTreeRootName) + 2 < sizeof(subTreeRootName) ; i++) {
                     strcat(subTreeRootName, ".*");
                 }
                 foundResponses = VSSSearchNodes(subTreeRootName, subtreeNode, MAXFOUNDNODES, searchData, false, false, 0, NULL, NULL);
diff --git a/binary/go_parser/testparser.go b/binary/go_parser/testparser.go
index 8be69c2..4582d64 100644
--- a/binary/go_parser/testparser.go
+++ b/binary/go_parser/testparser.go
@@ -136,9 +136,13 @@ func main() {
                 fmt.Printf("\nSubtree depth: ")
                 fmt.Scanf("%d", &depth)
                 searchData, foundResponses := parser.VSSsearchNodes(subTreePath, root, parser.MAXFOUNDNODES, false, false, 0, nil, nil)
+                if (foundResponses == 0) {
+                    fmt.Printf("\nNumber of elements found=0\n")
+                    break
+                }
                 subtreeNode := searchData[foundResponses-1].NodeHandle
                 subTreeRootName := parser.VSSgetName(searchData[foundResponses-1].NodeHandle)
-                for i := 1 ; i < depth ; i++ {
+                for i := 1 ; i < depth && i < parser.MAXFOUNDNODES ; i++ {
                     subTreeRootName += ".*"
                 }
                 fmt.Printf("\nsubTreeRootName=%s\n", subTreeRootName)
-- 
2.43.0


From f8f8603550120145b6606acafa5e55f72d2d61eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:07 +0000
Subject: [PATCH 63/73] fix: refuse Go output for data types named like
 branches

A struct with the full name of a branch replaced the Go struct of the
branch without notice.
---
 src/vss_tools/vspec/vssexporters/vss2go.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2go.py b/src/vss_tools/vspec/vssexporters/vss2go.py
index fb1ddac..e2483de 100644
--- a/src/vss_tools/vspec/vssexporters/vss2go.py
+++ b/src/vss_tools/vspec/vssexporters/vss2go.py
@@ -356,6 +356,10 @@ def cli(
     log.info(f"Structs, amount={len(structs)}")
     datatype_structs = get_go_structs(datatype_tree, instance_map, True)
     log.info(f"Datatype structs, amount={len(datatype_structs)}")
+    same = [fqn for fqn in datatype_structs if fqn in structs]
+    if same:
+        log.fatal(f"Aborting, because data types and branches have the same name: {', '.join(same)}")
+        sys.exit(-1)
     structs.update(datatype_structs)
 
     if short_names:
-- 
2.43.0


From 3a0677daf6b43bb39a46a3d074ab53faaa6ccbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:07 +0000
Subject: [PATCH 64/73] fix: refuse protobuf output for a message named like a
 data type package

No protobuf compiler accepts a message and a package of the same name.
---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 9391c6b..462fbab 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -94,7 +94,9 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
         write_package_file(out_file, ".".join(package.parts), imports, messages)
 
 
-def traverse_signal_tree(tree: VSSNode, fd: TextIO, static_uid: bool, add_optional: bool):
+def traverse_signal_tree(
+    tree: VSSNode, datatype_tree: VSSNode | None, fd: TextIO, static_uid: bool, add_optional: bool
+):
     fd.write('syntax = "proto3";\n\n')
 
     imports = []
@@ -116,6 +118,12 @@ def traverse_signal_tree(tree: VSSNode, fd: TextIO, static_uid: bool, add_option
                 f"have the same message name {node.get_fqn('')}. Consider renaming one of them."
             )
             sys.exit(-1)
+        if datatype_tree and node.get_fqn("") == datatype_tree.name:
+            log.fatal(
+                f"Aborting, because the message of branch {node.get_fqn()} has the name of the "
+                f"data type package {datatype_tree.name}. Consider renaming one of them."
+            )
+            sys.exit(-1)
         fd.write(f"message {node.get_fqn('')} {{" + "\n")
         print_messages(node.children, fd, static_uid, add_optional)
         fd.write("}\n\n")
@@ -234,7 +242,7 @@ def cli(
         overlays=overlays,
     )
     signals = StringIO()
-    traverse_signal_tree(tree, signals, static_uid, add_optional)
+    traverse_signal_tree(tree, datatype_tree, signals, static_uid, add_optional)
 
     if datatype_tree:
         if not types_out_dir:
-- 
2.43.0


From bb757a47cb997d835fff94f61b13554a4038a637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:07 +0000
Subject: [PATCH 65/73] fix: refuse DDS-IDL output for nodes in both the signal
 and the data type tree

Both were written as IDL definitions of the same name.
---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 9ce5eb9..e3b7bf5 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -12,6 +12,7 @@
 
 import keyword
 import re
+import sys
 import typing
 from pathlib import Path
 
@@ -488,6 +489,14 @@ def cli(
     )
     log.info("Generating DDS-IDL output...")
 
+    if datatype_tree is not None:
+        type_nodes = {n.get_fqn().lower(): n for n in datatype_tree.descendants}
+        for node in tree.descendants:
+            other = type_nodes.get(node.get_fqn().lower())
+            if other and not (isinstance(node.data, VSSDataBranch) and isinstance(other.data, VSSDataBranch)):
+                log.fatal(f"Aborting, because {other.get_fqn()} is defined in the signal and in the data type tree.")
+                sys.exit(-1)
+
     if datatype_tree is not None:
         exporter = StructExporter()
         with open(output, "w") as idl_out:
-- 
2.43.0


From 921c8fa989f579da9ec97cd502308987ea4e66b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 66/73] fix: read specifications and write exports as UTF-8 in
 every locale

---
 src/vss_tools/vspec/units_quantities.py          | 2 +-
 src/vss_tools/vspec/vspec.py                     | 2 +-
 src/vss_tools/vspec/vssexporters/vss2apigear.py  | 2 +-
 src/vss_tools/vspec/vssexporters/vss2csv.py      | 2 +-
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py   | 4 ++--
 src/vss_tools/vspec/vssexporters/vss2franca.py   | 2 +-
 src/vss_tools/vspec/vssexporters/vss2go.py       | 2 +-
 src/vss_tools/vspec/vssexporters/vss2graphql.py  | 2 +-
 src/vss_tools/vspec/vssexporters/vss2id.py       | 2 +-
 src/vss_tools/vspec/vssexporters/vss2json.py     | 4 ++--
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 4 ++--
 src/vss_tools/vspec/vssexporters/vss2tree.py     | 2 +-
 src/vss_tools/vspec/vssexporters/vss2yaml.py     | 2 +-
 13 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/vss_tools/vspec/units_quantities.py b/src/vss_tools/vspec/units_quantities.py
index 9f707ec..418db88 100644
--- a/src/vss_tools/vspec/units_quantities.py
+++ b/src/vss_tools/vspec/units_quantities.py
@@ -27,7 +27,7 @@ def load_units_or_quantities(
 ) -> dict[str, VSSUnit | VSSQuantity]:
     data = {}
     for file in files:
-        content = yaml.safe_load(file.read_text())
+        content = yaml.safe_load(file.read_text(encoding="utf-8"))
         if not content:
             log.warning(f"{file}, empty")
             continue
diff --git a/src/vss_tools/vspec/vspec.py b/src/vss_tools/vspec/vspec.py
index a36ef8c..dcff450 100644
--- a/src/vss_tools/vspec/vspec.py
+++ b/src/vss_tools/vspec/vspec.py
@@ -74,7 +74,7 @@ class VSpec:
         self.source = source
         self.prefix = prefix
 
-        content = source.read_text()
+        content = source.read_text(encoding="utf-8")
 
         self.data = yaml.safe_load(content)
         if self.data is None:
diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index bf33cfe..cf2ae6a 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -418,7 +418,7 @@ def generate_solution(directory: Path, module_filename: str, module_name: str,
 
 
 def export_yaml(file_name, content_dict):
-    with open(file_name, "w") as f:
+    with open(file_name, "w", encoding="utf-8") as f:
         yaml.dump(
             content_dict,
             f,
diff --git a/src/vss_tools/vspec/vssexporters/vss2csv.py b/src/vss_tools/vspec/vssexporters/vss2csv.py
index 1b916e8..f7cdb67 100644
--- a/src/vss_tools/vspec/vssexporters/vss2csv.py
+++ b/src/vss_tools/vspec/vssexporters/vss2csv.py
@@ -68,7 +68,7 @@ def add_rows(rows: list[list[Any]], root: VSSNode, with_uuid: bool, with_instanc
 
 
 def write_csv(rows: list[list[Any]], output: Path):
-    with open(output, "w", newline="") as f:
+    with open(output, "w", newline="", encoding="utf-8") as f:
         writer = csv.writer(f)
         writer.writerows(rows)
 
diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index e3b7bf5..d4799ad 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -499,10 +499,10 @@ def cli(
 
     if datatype_tree is not None:
         exporter = StructExporter()
-        with open(output, "w") as idl_out:
+        with open(output, "w", encoding="utf-8") as idl_out:
             idl_out.write(exporter.export(datatype_tree))
 
-    with open(output, "a" if datatype_tree is not None else "w") as idl_out:
+    with open(output, "a" if datatype_tree is not None else "w", encoding="utf-8") as idl_out:
         export_idl(
             idl_out,
             tree,
diff --git a/src/vss_tools/vspec/vssexporters/vss2franca.py b/src/vss_tools/vspec/vssexporters/vss2franca.py
index b6f6831..4a92476 100644
--- a/src/vss_tools/vspec/vssexporters/vss2franca.py
+++ b/src/vss_tools/vspec/vssexporters/vss2franca.py
@@ -129,7 +129,7 @@ def cli(
         units=units,
         overlays=overlays,
     )
-    with open(output, "w") as f:
+    with open(output, "w", encoding="utf-8") as f:
         print_franca_header(f, franca_vss_version)
         print_franca_content(f, tree, uuid)
         f.write("\n]")
diff --git a/src/vss_tools/vspec/vssexporters/vss2go.py b/src/vss_tools/vspec/vssexporters/vss2go.py
index e2483de..0cb5d2b 100644
--- a/src/vss_tools/vspec/vssexporters/vss2go.py
+++ b/src/vss_tools/vspec/vssexporters/vss2go.py
@@ -389,7 +389,7 @@ def cli(
             )
             sys.exit(-1)
 
-    with open(output, "w") as f:
+    with open(output, "w", encoding="utf-8") as f:
         f.write(f"package {package}\n\n")
         for struct in structs.values():
             f.write(str(struct))
diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index 1905b03..62a0336 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -187,6 +187,6 @@ def cli(
     for field in gql_fields:
         gqlfields.append(field.split(",", 1))
     schema = get_schema_from_tree(tree, gqlfields)
-    with open(output, "w") as outfile:
+    with open(output, "w", encoding="utf-8") as outfile:
         outfile.write(schema)
         outfile.write("\n")
diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index 3703570..db8e94b 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -216,5 +216,5 @@ def cli(
         vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, case_sensitive)
 
     if not validate_only:
-        with open(output, "w") as f:
+        with open(output, "w", encoding="utf-8") as f:
             yaml.dump(signals_yaml_dict, f)
diff --git a/src/vss_tools/vspec/vssexporters/vss2json.py b/src/vss_tools/vspec/vssexporters/vss2json.py
index d3eaab3..38bdb7d 100644
--- a/src/vss_tools/vspec/vssexporters/vss2json.py
+++ b/src/vss_tools/vspec/vssexporters/vss2json.py
@@ -95,8 +95,8 @@ def cli(
             log.info("Adding custom data types to signal dictionary")
             signals_data["ComplexDataTypes"] = types_data
         else:
-            with open(types_output, "w") as f:
+            with open(types_output, "w", encoding="utf-8") as f:
                 json.dump(types_data, f, indent=indent, sort_keys=True)
 
-    with open(output, "w") as f:
+    with open(output, "w", encoding="utf-8") as f:
         json.dump(signals_data, f, indent=indent, sort_keys=True)
diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 462fbab..fa1f812 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -42,7 +42,7 @@ mapped = {
 
 def write_package_file(path: Path, package_name: str, imports: list[str], messages: list[str]):
     path.parent.mkdir(parents=True, exist_ok=True)
-    with open(path, "w") as f:
+    with open(path, "w", encoding="utf-8") as f:
         log.info(f"Writing {path}, package {package_name}")
         f.write('syntax = "proto3";\n\n')
         f.write(f"package {package_name};\n\n")
@@ -250,6 +250,6 @@ def cli(
             log.warning(f"No output directory given. Writing to: {types_out_dir.absolute()}")
         traverse_data_type_tree(datatype_tree, static_uid, add_optional, types_out_dir)
 
-    with open(output, "w") as f:
+    with open(output, "w", encoding="utf-8") as f:
         log.info(f"Writing to: {output}")
         f.write(signals.getvalue())
diff --git a/src/vss_tools/vspec/vssexporters/vss2tree.py b/src/vss_tools/vspec/vssexporters/vss2tree.py
index 02ceb3f..066c3d7 100644
--- a/src/vss_tools/vspec/vssexporters/vss2tree.py
+++ b/src/vss_tools/vspec/vssexporters/vss2tree.py
@@ -84,7 +84,7 @@ def cli(
 
     if output:
         log.info(f"Writing tree to: {output.absolute()}")
-        with open(output, "w") as f:
+        with open(output, "w", encoding="utf-8") as f:
             f.write(rendered_tree)
     else:
         log.info(rendered_tree)
diff --git a/src/vss_tools/vspec/vssexporters/vss2yaml.py b/src/vss_tools/vspec/vssexporters/vss2yaml.py
index e11a7ca..c80e0c9 100644
--- a/src/vss_tools/vspec/vssexporters/vss2yaml.py
+++ b/src/vss_tools/vspec/vssexporters/vss2yaml.py
@@ -22,7 +22,7 @@ from vss_tools.vspec.main import get_trees
 
 
 def export_yaml(file_name, content_dict):
-    with open(file_name, "w") as f:
+    with open(file_name, "w", encoding="utf-8") as f:
         yaml.dump(
             content_dict,
             f,
-- 
2.43.0


From 16b968e885a5bbc53ae07cbf18c2e58ec0c1013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 67/73] fix: name the file or node that is not a mapping

---
 src/vss_tools/vspec/main.py  | 8 ++++++--
 src/vss_tools/vspec/vspec.py | 5 +++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/main.py b/src/vss_tools/vspec/main.py
index 6088223..adb54c5 100644
--- a/src/vss_tools/vspec/main.py
+++ b/src/vss_tools/vspec/main.py
@@ -24,7 +24,11 @@ from vss_tools.vspec.model import (
 )
 from vss_tools.vspec.tree import ModelValidationException, VSSNode, build_tree
 from vss_tools.vspec.units_quantities import load_quantities, load_units
-from vss_tools.vspec.vspec import InvalidSpecDuplicatedEntryException, load_vspec
+from vss_tools.vspec.vspec import (
+    InvalidSpecDuplicatedEntryException,
+    SpecException,
+    load_vspec,
+)
 
 
 class NameViolationException(Exception):
@@ -215,7 +219,7 @@ def get_trees(
     try:
         types_root = get_types_root(types, unique_include_dirs)
         vspec_data = load_vspec(unique_include_dirs, [vspec] + list(overlays))
-    except InvalidSpecDuplicatedEntryException as e:
+    except (InvalidSpecDuplicatedEntryException, SpecException) as e:
         log.critical(e)
         exit(1)
 
diff --git a/src/vss_tools/vspec/vspec.py b/src/vss_tools/vspec/vspec.py
index dcff450..131bcfc 100644
--- a/src/vss_tools/vspec/vspec.py
+++ b/src/vss_tools/vspec/vspec.py
@@ -79,6 +79,8 @@ class VSpec:
         self.data = yaml.safe_load(content)
         if self.data is None:
             self.data = {}
+        if not isinstance(self.data, dict):
+            raise SpecException(f"{source} is not a mapping of nodes")
 
         if prefix:
             tmp_data = {}
@@ -130,4 +132,7 @@ def load_vspec(include_dirs: list[Path], specs: list[Path], identifier: str | No
         msg = f"Weird behavior. Could not load any spec: {specs}"
         log.error(msg)
         raise SpecException(msg)
+    for fqn, attributes in spec.data.items():
+        if not isinstance(attributes, dict):
+            raise SpecException(f"'{fqn}' is not a mapping of attributes: {attributes!r}")
     return spec
-- 
2.43.0


From ba373ae37514b2ddde6bad450783302702246ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 68/73] fix: an overlay for a node no longer changes nodes that
 are yaml aliases of it

---
 src/vss_tools/vspec/vspec.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vspec.py b/src/vss_tools/vspec/vspec.py
index 131bcfc..ed766a7 100644
--- a/src/vss_tools/vspec/vspec.py
+++ b/src/vss_tools/vspec/vspec.py
@@ -65,6 +65,18 @@ def deep_update(base: dict[str, Any], update: dict[str, Any]) -> None:
             base[key] = value
 
 
+def get_unshared(value: Any) -> Any:
+    """
+    Copies yaml content so that nothing is shared between nodes that
+    refer to the same content with yaml aliases.
+    """
+    if isinstance(value, dict):
+        return {k: get_unshared(v) for k, v in value.items()}
+    if isinstance(value, list):
+        return [get_unshared(v) for v in value]
+    return value
+
+
 class VSpec:
     def __init__(
         self,
@@ -76,7 +88,8 @@ class VSpec:
 
         content = source.read_text(encoding="utf-8")
 
-        self.data = yaml.safe_load(content)
+        # Updating a node must not update others that are an alias of it
+        self.data = get_unshared(yaml.safe_load(content))
         if self.data is None:
             self.data = {}
         if not isinstance(self.data, dict):
-- 
2.43.0


From fddee6e6f307951258e6716afe86332e3b4fff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 69/73] fix: reject infinity and not-a-number as min, max,
 default and allowed values

---
 src/vss_tools/vspec/datatypes.py | 6 +++++-
 src/vss_tools/vspec/model.py     | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/datatypes.py b/src/vss_tools/vspec/datatypes.py
index 9734564..1d29e73 100644
--- a/src/vss_tools/vspec/datatypes.py
+++ b/src/vss_tools/vspec/datatypes.py
@@ -5,6 +5,7 @@
 # https://www.mozilla.org/en-US/MPL/2.0/
 #
 # SPDX-License-Identifier: MPL-2.0
+import math
 from typing import Any, Callable, Set
 
 from vss_tools import log
@@ -86,7 +87,10 @@ def is_bool(value: Any) -> bool:
 
 
 def is_float(value: Any) -> bool:
-    return is_x(value, float) or is_x(value, int)
+    if is_x(value, float):
+        # The exported formats have no number for infinity and not-a-number
+        return all(math.isfinite(v) for v in (value if isinstance(value, list) else [value]))
+    return is_x(value, int)
 
 
 def is_string(value: Any) -> bool:
diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index ca5f72e..34c58d9 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -13,6 +13,7 @@ from pydantic import (
     BaseModel,
     ConfigDict,
     Field,
+    FiniteFloat,
     ValidationError,
     field_validator,
     model_validator,
@@ -184,8 +185,8 @@ class VSSQuantity(BaseModel):
 class VSSDataDatatype(VSSData):
     datatype: str
     arraysize: int | None = None
-    min: int | float | None = None
-    max: int | float | None = None
+    min: int | FiniteFloat | None = None
+    max: int | FiniteFloat | None = None
     unit: str | None = None
     allowed: list[str | int | float | bool] | None = None
     default: list[str | int | float | bool] | str | int | float | bool | None = None
-- 
2.43.0


From 41dfedb2dbf12c59d4158aa1503d637d2368a12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 70/73] fix: instances keep values as they are stated until
 they are validated

---
 src/vss_tools/vspec/model.py |  3 ++-
 src/vss_tools/vspec/tree.py  | 11 +++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index 34c58d9..b4d8574 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -87,6 +87,7 @@ class VSSRaw(BaseModel):
         with_extra_attributes: bool = True,
         exclude_fields: list[str] = EXPORT_EXCLUDE_ATTRIBUTES,
         extended_attributes: tuple[str, ...] = (),
+        mode: str = "json",
     ) -> dict[str, Any]:
         excludes = exclude_fields.copy()
         if not with_extra_attributes:
@@ -94,7 +95,7 @@ class VSSRaw(BaseModel):
                 if extra_attribute not in extended_attributes:
                     excludes.append(extra_attribute)
         data = {}
-        for k, v in self.model_dump(mode="json", exclude_none=False, exclude=set(excludes)).items():
+        for k, v in self.model_dump(mode=mode, exclude_none=False, exclude=set(excludes)).items():
             if k not in extended_attributes:
                 if v == []:
                     continue
diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index 3a38bd7..1ed46d1 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -71,10 +71,8 @@ class VSSNode(Node):  # type: ignore[misc]
         node = VSSNode(
             self.name,
             self.get_fqn(),
-            self.data.model_dump(
-                mode="json",
-                exclude=set(["fqn"]),
-            ),
+            # Values must stay what they are, they might not be validated yet
+            self.data.model_dump(exclude=set(["fqn"])),
         )
         node.stated = set(self.stated)
         for c in self.children:
@@ -131,9 +129,10 @@ class VSSNode(Node):  # type: ignore[misc]
             raise NotMergeableException(f"{self.get_fqn()} != {other.get_fqn()}")
 
         log.debug(f"{self.get_fqn()}, merging with='{other.get_fqn()}'")
-        self_data = self.data.as_dict(exclude_fields=["fqn"])
+        self_data = self.data.as_dict(exclude_fields=["fqn"], mode="python")
         # Only what the other node states has priority, not its defaults
-        other_data = {k: v for k, v in other.data.as_dict(exclude_fields=["fqn"]).items() if k in other.stated}
+        other_data = other.data.as_dict(exclude_fields=["fqn"], mode="python")
+        other_data = {k: v for k, v in other_data.items() if k in other.stated}
 
         deep_update(self_data, other_data)
         self.stated |= other.stated
-- 
2.43.0


From 95c3d48131bbcd880769ec70c7d832d43f0c12bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 71/73] fix: reject instances whose entries are no labels

---
 src/vss_tools/vspec/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index b4d8574..ad958ab 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -149,7 +149,13 @@ class VSSDataBranch(VSSData):
         if not (isinstance(v, str) or isinstance(v, list)):
             assert False, f"'{v}' is not a valid 'instances' content"
         if isinstance(v, str):
-            return [v]
+            v = [v]
+        for entry in v:
+            labels = entry if isinstance(entry, list) else [entry]
+            assert labels, "'instances' contains an empty list"
+            for label in labels:
+                valid = isinstance(label, (str, int)) and str(label) and "." not in str(label)
+                assert valid, f"'{label}' is not a valid label of 'instances'"
         return v
 
 
-- 
2.43.0


From b9a77ab734aae3596e0055fd28674ff59b031c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 72/73] fix: statements at the begin of files with a byte order
 mark are seen

---
 src/vss_tools/vspec/vspec.py                          | 2 +-
 src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vspec.py b/src/vss_tools/vspec/vspec.py
index ed766a7..bfa67ac 100644
--- a/src/vss_tools/vspec/vspec.py
+++ b/src/vss_tools/vspec/vspec.py
@@ -86,7 +86,7 @@ class VSpec:
         self.source = source
         self.prefix = prefix
 
-        content = source.read_text(encoding="utf-8")
+        content = source.read_text(encoding="utf-8-sig")
 
         # Updating a node must not update others that are an alias of it
         self.data = get_unshared(yaml.safe_load(content))
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
index 65f945f..a0b032f 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
@@ -205,7 +205,7 @@ def cli(
     if signals_file:
         log.info("Using signals from:\n    '%s'\n", signals_file)
 
-        with open(signals_file, "r", encoding="utf-8") as f:
+        with open(signals_file, "r", encoding="utf-8-sig") as f:
             # Ignore empty lines as these do not select any signal
             included_signals_input = [line.strip() for line in f if line.strip()]
 
-- 
2.43.0


From e53c91bc210574f880ccfcc4a02c753380fc8095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:54 +0000
Subject: [PATCH 73/73] fix: a null or empty value stated for one instance
 replaces the inherited one

---
 src/vss_tools/vspec/tree.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index 1ed46d1..cb293e1 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -129,10 +129,9 @@ class VSSNode(Node):  # type: ignore[misc]
             raise NotMergeableException(f"{self.get_fqn()} != {other.get_fqn()}")
 
         log.debug(f"{self.get_fqn()}, merging with='{other.get_fqn()}'")
-        self_data = self.data.as_dict(exclude_fields=["fqn"], mode="python")
+        self_data = self.data.model_dump(include=self.stated | {"is_instance"}, exclude={"fqn"})
         # Only what the other node states has priority, not its defaults
-        other_data = other.data.as_dict(exclude_fields=["fqn"], mode="python")
-        other_data = {k: v for k, v in other_data.items() if k in other.stated}
+        other_data = other.data.model_dump(include=other.stated, exclude={"fqn"})
 
         deep_update(self_data, other_data)
         self.stated |= other.stated
-- 
2.43.0

