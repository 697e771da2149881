From f3a7d20fd774993940ed40a5e76f459f525b1ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 01/57] fix: single element instance range opens a new instance
 level

'Row[1,1]' followed by further instance levels attached the following level
next to Row1 instead of below it, unlike any longer range.
---
 src/vss_tools/vspec/tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index a6775bc..a1ef314 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -443,10 +443,11 @@ def expand_instance(
             node.children = []
     # New roots to attach to get returned
     # either when using the Row[1,2] syntax
+    # (also if the range covers a single element such as Row[1,1])
     # or when specifying instances as a list entry
     # Otherwise next instance generation call will
     # attach nodes to the same roots again
-    if len(names) > 1 or isinstance(instance, list):
+    if isinstance(instance, list) or names != [str(instance)]:
         return nodes, nodes
     else:
         return roots, nodes
-- 
2.43.0


From 94f0cae48a5c2810e697ebb33f183cdd9d9ca183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 02/57] fix: short struct names are matched by namespace, not
 by string prefix

A struct property could not reference a sibling struct whose name is a prefix
of its own struct's name (P from Pos), and short names of one namespace were
visible in unrelated ones sharing a prefix (Types.A and Types.AB).
---
 src/vss_tools/vspec/datatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/datatypes.py b/src/vss_tools/vspec/datatypes.py
index e3ed5e9..7bba20e 100644
--- a/src/vss_tools/vspec/datatypes.py
+++ b/src/vss_tools/vspec/datatypes.py
@@ -240,14 +240,14 @@ def get_fqn_namespaced_datatypes(fqn: str | None = None) -> dict[str, str]:
     fqn_namespaced_datatypes = {}
     for t in dynamic_datatypes:
         # This excludes referencing the own struct as a datatype
-        if fqn.startswith(t):
+        if fqn == t or fqn.startswith(f"{t}."):
             continue
 
         # fqn: Types.A.B.C.x_property
         # t: Types.A.B.D
         # We are checking whether fqn starts with Types.A.B
         # in this case we add {D: Types.A.B.D}
-        if fqn.startswith(".".join(t.split(".")[:-1])):
+        if fqn.startswith(".".join(t.split(".")[:-1]) + "."):
             fqn_namespaced_datatypes[(t.split(".")[-1])] = t
 
     if fqn_namespaced_datatypes:
-- 
2.43.0


From bf8e1b58a966a7d8ce454d4292694de4f32d9ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 03/57] fix: json export filters extended attributes on all
 nodes

Only the root node honoured -e/--extended-attributes and
--extend-all-attributes, all other nodes were always exported with every
extended attribute (unlike the documentation and the yaml exporter).
---
 src/vss_tools/vspec/vssexporters/vss2json.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2json.py b/src/vss_tools/vspec/vssexporters/vss2json.py
index b05d564..d3eaab3 100644
--- a/src/vss_tools/vspec/vssexporters/vss2json.py
+++ b/src/vss_tools/vspec/vssexporters/vss2json.py
@@ -27,7 +27,7 @@ def get_data(node: VSSNode, with_extra_attributes: bool = True, extended_attribu
     if len(node.children) > 0:
         data["children"] = {}
     for child in node.children:
-        data["children"][child.name] = get_data(child)
+        data["children"][child.name] = get_data(child, with_extra_attributes, extended_attributes)
     return data
 
 
@@ -88,7 +88,9 @@ def cli(
     signals_data = {tree.name: get_data(tree, extend_all_attributes, extended_attributes)}
 
     if datatype_tree:
-        types_data: dict[str, Any] = {datatype_tree.name: get_data(datatype_tree, extend_all_attributes)}
+        types_data: dict[str, Any] = {
+            datatype_tree.name: get_data(datatype_tree, extend_all_attributes, extended_attributes)
+        }
         if not types_output:
             log.info("Adding custom data types to signal dictionary")
             signals_data["ComplexDataTypes"] = types_data
-- 
2.43.0


From bd642a89f5d544e7dc2b7b4847fa15c387c242fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 04/57] fix: check falsy default values against allowed

A default of 0, False or an empty string was accepted although it is not
part of the allowed values.
---
 src/vss_tools/vspec/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index ce38f99..693da15 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -222,7 +222,7 @@ class VSSDataDatatype(VSSData):
         Checks that the given default values
         are in the allowed list
         """
-        if self.default and self.allowed:
+        if self.default is not None and self.allowed:
             values = self.default
             if not isinstance(self.default, list):
                 values = [self.default]
-- 
2.43.0


From d044e2cdcf9c383659c6c09fb7f62d6831325a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 05/57] fix: booleans are not valid values of numeric datatypes

'default: true' and 'allowed: [true]' were accepted for integer and
floating point datatypes because bool is a subclass of int.
---
 src/vss_tools/vspec/datatypes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/datatypes.py b/src/vss_tools/vspec/datatypes.py
index 7bba20e..bcefb32 100644
--- a/src/vss_tools/vspec/datatypes.py
+++ b/src/vss_tools/vspec/datatypes.py
@@ -26,7 +26,8 @@ def is_xintx(value: Any, signed: bool, bits: int):
         values = value
 
     for v in values:
-        if not isinstance(v, int):
+        # bool is a subclass of int but not a valid integer value
+        if not isinstance(v, int) or isinstance(v, bool):
             return False
         if not signed and v < 0:
             return False
@@ -76,7 +77,8 @@ def is_x(value: Any, c: type) -> bool:
     values = [value]
     if isinstance(value, list):
         values = value
-    return all([isinstance(v, c) for v in values])
+    # bool is a subclass of int but not a valid integer value
+    return all([isinstance(v, c) and (c is bool or not isinstance(v, bool)) for v in values])
 
 
 def is_bool(value: Any) -> bool:
-- 
2.43.0


From 366bbcee90eab02dcdc19d2ff02d4d8efeb784f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 06/57] fix: accept a single string for fka as documented in
 docs/id.md

---
 src/vss_tools/vspec/model.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index 693da15..c802eb1 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -114,6 +114,16 @@ class VSSData(VSSRaw):
     fka: list[str] = []
     instantiate: bool = True
 
+    @field_validator("fka", mode="before")
+    @classmethod
+    def fill_fka(cls, v: Any) -> Any:
+        """
+        'fka' can be given as a single string or a list of strings
+        """
+        if isinstance(v, str):
+            return [v]
+        return v
+
     @field_validator("constUID")
     @classmethod
     def check_const_uid_format(cls, v: str | None) -> str | None:
-- 
2.43.0


From c826faf57400ab72831a3424e960c55953bdd85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 07/57] fix: types of later --types files are merged into
 earlier ones

Redefinitions of already known structs or properties in a second --types
file were silently ignored although documented as being merged like overlays.
---
 src/vss_tools/vspec/main.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/main.py b/src/vss_tools/vspec/main.py
index 71945a6..1afdc1f 100644
--- a/src/vss_tools/vspec/main.py
+++ b/src/vss_tools/vspec/main.py
@@ -119,10 +119,9 @@ def get_types_root(types: tuple[Path, ...], include_dirs: list[Path]) -> VSSNode
             log.error(f"Types model has orphans\n{orphans}")
             exit(1)
         if types_root:
-            node: VSSNode
-            for node in PreOrderIter(root):
-                if not types_root.connect(node.get_fqn(), node):
-                    raise MultipleTypeTreesException()
+            if root.get_fqn() != types_root.get_fqn():
+                raise MultipleTypeTreesException()
+            types_root.merge(root)
         else:
             types_root = root
 
-- 
2.43.0


From c3c653d7c6dad963a1a5436d588e9fff0e637e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 08/57] fix: missing staticUID in validation file does not
 crash fka lookup

---
 src/vss_tools/vspec/utils/vss2id_val.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/utils/vss2id_val.py b/src/vss_tools/vspec/utils/vss2id_val.py
index 8231e32..205ef17 100644
--- a/src/vss_tools/vspec/utils/vss2id_val.py
+++ b/src/vss_tools/vspec/utils/vss2id_val.py
@@ -55,7 +55,7 @@ def validate_static_uids(signals_dict: dict, validation_tree: VSSNode, strict: b
             for fka_val in v["fka"]:
                 old_static_uid = "0x" + fnv1_32_wrapper(fka_val, v, strict_mode)
                 for i, validation_node in enumerate(validation_tree_nodes):
-                    if old_static_uid == validation_node.data.staticUID:
+                    if old_static_uid == getattr(validation_node.data, "staticUID", None):
                         log.warning(
                             f"[Validation] SEMANTIC NAME CHANGE or PATH CHANGE for '{k}', "
                             f"it used to be '{validation_node.get_fqn()}'."
-- 
2.43.0


From 5601711a39fea49ac5b25a4b6269006cd8ec29d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 09/57] fix: detect duplicate UIDs that differ only in hex
 digit case

---
 src/vss_tools/vspec/vssexporters/vss2id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index 021f54a..02e6a3b 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -91,7 +91,7 @@ def export_node(data: dict[str, Any], node: VSSNode, id_counter, strict_mode: bo
     # check for hash duplicates
     for key, value in get_all_keys_values(data):
         if not isinstance(value, dict) and key == "staticUID":
-            if node_id == value:
+            if int(node_id, 16) == int(value, 16):
                 log.fatal(
                     f"There is a small chance that the result of FNV-1 "
                     f"hashes are the same in this case the hash of node "
-- 
2.43.0


From 907536ac2a7e6381d46c1124436f675cbfb11a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 10/57] fix: hash fka names like the static UIDs when
 validating

The validation used --strict instead of --case-sensitive, so a rename
documented with fka was not recognised if the two flags differ.
---
 src/vss_tools/vspec/vssexporters/vss2id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index 02e6a3b..2e955ff 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -213,7 +213,7 @@ def cli(
             types=types,
             expand=expand,
         )
-        vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, strict)
+        vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, case_sensitive)
 
     if not validate_only:
         with open(output, "w") as f:
-- 
2.43.0


From e10b48abd851ca29bdf9ae7525109046c035b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:27 +0000
Subject: [PATCH 11/57] fix: attribute defaults do not overwrite data when
 merging instances

Instance specific nodes (e.g. A.B.Row1.C) that are complete on their own
carried the defaults of attributes they do not mention (delete, instantiate,
is_instance, ...) and reset the values inherited from the instantiated node.
---
 src/vss_tools/vspec/model.py | 6 ++++--
 src/vss_tools/vspec/tree.py  | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index c802eb1..4fa81b5 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -323,12 +323,14 @@ def resolve_vss_raw(model: VSSRaw) -> VSSData:
     Resolves a raw model to the actual node that
     it should be validated to
     """
-    model = VSSData(**model.model_dump())
+    # Only explicitly given attributes are handed over, so that defaults are
+    # not mistaken for user data when nodes are merged
+    model = VSSData(**model.model_dump(exclude_unset=True))
     cls = TYPE_CLASS_MAP.get(model.type)
     if not cls:
         log.warning(f"No class mapping for type='{model.type.value}'")
         raise ModelException()
-    model = cls(**model.model_dump())
+    model = cls(**model.model_dump(exclude_unset=True))
     return model  # type: ignore
 
 
diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index a1ef314..5677dde 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -72,6 +72,7 @@ class VSSNode(Node):  # type: ignore[misc]
             self.data.model_dump(
                 mode="json",
                 exclude=set(["fqn"]),
+                exclude_unset=True,
             ),
         )
         for c in self.children:
@@ -130,6 +131,8 @@ class VSSNode(Node):  # type: ignore[misc]
         log.debug(f"{self.get_fqn()}, merging with='{other.get_fqn()}'")
         self_data = self.data.as_dict(exclude_fields=["fqn"])
         other_data = other.data.as_dict(exclude_fields=["fqn"])
+        # Defaults of attributes that have not been given must not overwrite
+        other_data = {k: v for k, v in other_data.items() if k in other.data.model_fields_set}
 
         deep_update(self_data, other_data)
         self.data = get_vss_raw(self_data, self.get_fqn())
-- 
2.43.0


From 8a9c2d20f39e6daf8bd62e80698177f505f799e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 12/57] fix: ambiguous short struct names resolve to the
 innermost namespace

---
 src/vss_tools/vspec/datatypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/datatypes.py b/src/vss_tools/vspec/datatypes.py
index bcefb32..4c6c664 100644
--- a/src/vss_tools/vspec/datatypes.py
+++ b/src/vss_tools/vspec/datatypes.py
@@ -240,7 +240,9 @@ def get_fqn_namespaced_datatypes(fqn: str | None = None) -> dict[str, str]:
     if not fqn:
         return {}
     fqn_namespaced_datatypes = {}
-    for t in dynamic_datatypes:
+    # Sorted so that the innermost namespace takes precedence if the
+    # same short name exists in several enclosing namespaces
+    for t in sorted(dynamic_datatypes, key=lambda name: name.count(".")):
         # This excludes referencing the own struct as a datatype
         if fqn == t or fqn.startswith(f"{t}."):
             continue
-- 
2.43.0


From 03490f87744544eac39f77479510a1cacb558942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 13/57] fix: apigear exits with an error if it aborts on an
 existing directory

---
 src/vss_tools/vspec/vssexporters/vss2apigear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index df72495..8984341 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -10,6 +10,7 @@
 
 
 import abc
+import sys
 import typing
 import yaml
 import rich_click as click
@@ -508,7 +509,7 @@ def cli(
     log.info("Generating ApiGear output...")
     if output_dir.exists():
         log.error("Directory already exists. Aborting..")
-        return
+        sys.exit(1)
     output_dir.mkdir(exist_ok=True, parents=True)
 
     layers = {}
-- 
2.43.0


From e03dab5e5b11560b6dcaeb33ef23a822ac2fd345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:55 +0000
Subject: [PATCH 14/57] fix: keep explicitly given empty values when merging
 instances

---
 src/vss_tools/vspec/tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index 5677dde..4f2572f 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -129,10 +129,10 @@ class VSSNode(Node):  # type: ignore[misc]
             raise NotMergeableException(f"{self.get_fqn()} != {other.get_fqn()}")
 
         log.debug(f"{self.get_fqn()}, merging with='{other.get_fqn()}'")
-        self_data = self.data.as_dict(exclude_fields=["fqn"])
-        other_data = other.data.as_dict(exclude_fields=["fqn"])
         # Defaults of attributes that have not been given must not overwrite
-        other_data = {k: v for k, v in other_data.items() if k in other.data.model_fields_set}
+        # whereas explicitly given empty values have to be kept
+        self_data = self.data.model_dump(mode="json", exclude=set(["fqn"]), exclude_unset=True)
+        other_data = other.data.model_dump(mode="json", exclude=set(["fqn"]), exclude_unset=True)
 
         deep_update(self_data, other_data)
         self.data = get_vss_raw(self_data, self.get_fqn())
-- 
2.43.0


From 6b117e168935b2e68704a2e2cd501e5a2d260e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:57 +0000
Subject: [PATCH 15/57] fix: C parser reads and writes nodes without
 uninitialised or overflowing memory

---
 binary/c_parser/cparserlib.c | 7 ++++---
 binary/c_parser/cparserlib.h | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 73617f3..6e8aa1d 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -139,6 +139,7 @@ uint8_t validateToUint8(char* validate) {
 }
 
 void validateToString(uint8_t validate, char *validation) {
+    validation[0] = 0;
     if (validate%10 == 1) {
         strcpy(validation, "write-only");
     } else if (validate%10 == 2) {
@@ -170,7 +171,7 @@ void incDepth(long thisNode, SearchContext_t* context) {
 	context->currentDepth++;
 }
 
-char getPathSegmentBuf[100];  // modified by getPathSegment() only
+char getPathSegmentBuf[MAXCHARSPATH];  // modified by getPathSegment() only
 char* getPathSegment(int offset, SearchContext_t* context) {
 	char* frontDelimiter = &(context->searchPath[0]);
 	char* endDelimiter;
@@ -428,7 +429,7 @@ void populateNode(node_t* thisNode) {
 	uint8_t validateLen;
 	ret = fread(&validateLen, sizeof(uint8_t), 1, treeFp);
 	if (validateLen > 0) {
-		char validate[50];
+		char validate[255+1];
 		ret = fread(validate, sizeof(char)*validateLen, 1, treeFp);
 		validate[validateLen] = '\0';
 		thisNode->validate = validateToUint8(validate);
@@ -522,7 +523,7 @@ void writeNode(struct node_t* node) {
 }
 
 struct node_t* traverseAndReadNode(struct node_t* parentNode) {
-	node_t* thisNode = (node_t*) malloc(sizeof(node_t));
+	node_t* thisNode = (node_t*) calloc(1, sizeof(node_t));  // absent fields have to be NULL
 	updateReadMetadata(true);
 	populateNode(thisNode);
 
diff --git a/binary/c_parser/cparserlib.h b/binary/c_parser/cparserlib.h
index 782d02c..6f1ff23 100644
--- a/binary/c_parser/cparserlib.h
+++ b/binary/c_parser/cparserlib.h
@@ -12,7 +12,7 @@
 #define UNKNOWN 0
 typedef enum {SENSOR=1, ACTUATOR, ATTRIBUTE, BRANCH, STRUCT, PROPERTY } nodeTypes_t;
 
-#define MAXALLOWEDELEMENTLEN 64
+#define MAXALLOWEDELEMENTLEN 256  // the size of an element is at most 0xFF
 typedef char allowed_t[MAXALLOWEDELEMENTLEN];
 
 typedef struct node_t {
-- 
2.43.0


From 59734db36010ccf84396c9308be52efc56835578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:13 +0000
Subject: [PATCH 16/57] fix: binary parsers rewrite trees and node lists
 completely

---
 binary/c_parser/cparserlib.c            | 8 +++++---
 binary/go_parser/datamodel/datamodel.go | 6 +++---
 binary/go_parser/parserlib/parser.go    | 9 +++++----
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 6e8aa1d..83b9bb1 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -253,12 +253,12 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 			    fwrite("\"", 1, 1, context->listFp);
 			} else {
 			    if (context->numOfMatches == 0) {
-				    fwrite("{\"", 2, 1, context->listFp);
+				    fwrite("{\"path\":\"", 9, 1, context->listFp);
 			    } else {
-				    fwrite(", {\"", 4, 1, context->listFp);
+				    fwrite(", {\"path\":\"", 11, 1, context->listFp);
 			    }
 			    fwrite(context->matchPath, strlen(context->matchPath), 1, context->listFp);
-			    fwrite("\", \"", 4, 1, context->listFp);
+			    fwrite("\", \"uuid\":\"", 11, 1, context->listFp);
 			    char uuid[32+1];
 			    strcpy(uuid, VSSgetUUID(thisNode));
 			    fwrite(uuid, strlen(uuid), 1, context->listFp);
@@ -655,6 +655,7 @@ int VSSGetLeafNodesList(long rootNode, char* listFname) {
 	struct SearchContext_t searchContext;
 	struct SearchContext_t* context = &searchContext;
 	isGetLeafNodeList = true;
+	isGetUuidList = false;
 
 	FILE* listFp = fopen(listFname, "w+");
 	fwrite("{\"leafpaths\":[", 14, 1, listFp);
@@ -669,6 +670,7 @@ int VSSGetLeafNodesList(long rootNode, char* listFname) {
 int VSSGetUuidList(long rootNode, char* listFname) {
 	struct SearchContext_t searchContext;
 	struct SearchContext_t* context = &searchContext;
+	isGetLeafNodeList = false;
 	isGetUuidList = true;
 
 	FILE* listFp = fopen(listFname, "w+");
diff --git a/binary/go_parser/datamodel/datamodel.go b/binary/go_parser/datamodel/datamodel.go
index a7e9f00..ffd2a22 100644
--- a/binary/go_parser/datamodel/datamodel.go
+++ b/binary/go_parser/datamodel/datamodel.go
@@ -60,7 +60,7 @@ func StringToNodetype(nodeType string) uint8 {
     if (nodeType == "struct") {
         return STRUCT
     }
-    if (nodeType == "propery") {
+    if (nodeType == "property") {
         return PROPERTY
     }
     fmt.Printf("Unknown type! |%s|\n", nodeType);
@@ -97,7 +97,7 @@ func NodetypeToString(nodeType NodeTypes_t) string {
         return "struct"
     }
     if (nodeType == PROPERTY) {
-        return "propery"
+        return "property"
     }
     fmt.Printf("Unknown type! |%d|\n", nodeType);
     return ""
@@ -113,7 +113,7 @@ func ValidateToString(validate uint8) string {
         validation = "read-write"
     }
     if (validate/10 == 1) {
-        validation = "+consent"
+        validation += "+consent"
     }
     return validation
 }
diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index 066f55e..ee1baac 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -448,7 +448,6 @@ func calculatAllowedStrLen(allowedDef []string) int {
 
 func allowedWrite(allowed string) {
     treeFp.Write(intToHex(len(allowed)))
-fmt.Printf("allowedHexLen: %s\n", string(intToHex(len(allowed))))
     treeFp.Write([]byte(allowed))
 }
 
@@ -574,8 +573,9 @@ func VSSsearchNodes(searchPath string, rootNode *def.Node_t, maxFound int, anyDe
 func VSSGetLeafNodesList(rootNode *def.Node_t, listFname string) int {
     var context SearchContext_t
     isGetLeafNodeList = true
+    isGetUuidList = false
     var err error
-    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE, 0755)
+    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
 	fmt.Printf("Could not open %s for writing tree data\n", listFname)
 	return 0
@@ -591,9 +591,10 @@ func VSSGetLeafNodesList(rootNode *def.Node_t, listFname string) int {
 
 func VSSGetUuidList(rootNode *def.Node_t, listFname string) int {
     var context SearchContext_t
+    isGetLeafNodeList = false
     isGetUuidList = true
     var err error
-    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE, 0755)
+    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
 	fmt.Printf("Could not open %s for writing tree data\n", listFname)
 	return 0
@@ -622,7 +623,7 @@ func VSSReadTree(fname string) *def.Node_t {
 
 func VSSWriteTree(fname string, root *def.Node_t) {
     var err error
-    treeFp, err = os.OpenFile(fname, os.O_RDWR|os.O_CREATE, 0755)
+    treeFp, err = os.OpenFile(fname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
 	fmt.Printf("Could not open %s for writing tree data\n", fname)
 	return
-- 
2.43.0


From d778794433d9ad636fdca25d3defa9f78704d01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:07 +0000
Subject: [PATCH 17/57] fix: wildcard search of the binary parsers keeps
 matches when siblings do not match

---
 binary/c_parser/cparserlib.c         |  5 +++--
 binary/go_parser/parserlib/parser.go | 10 ++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 83b9bb1..419087d 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -238,7 +238,8 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 		context->speculationIndex++;
 	}
 	context->maxValidation = getMaxValidation(VSSgetValidation(thisNode), context->maxValidation);
-	if (VSSgetType(thisNode) != BRANCH && VSSgetType(thisNode) != STRUCT || context->leafNodesOnly == false) {
+	bool isLeaf = VSSgetType(thisNode) != BRANCH && VSSgetType(thisNode) != STRUCT;
+	if (context->leafNodesOnly == false || (isLeaf && context->currentDepth >= countSegments(context->searchPath))) {
 		if ( isGetLeafNodeList == false && isGetUuidList == false) {
 			strcpy(context->searchData[context->numOfMatches].responsePaths, context->matchPath);
 			context->searchData[context->numOfMatches].foundNodeHandles = thisNode;
@@ -285,7 +286,7 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
  * decDepth() shall reverse speculative wildcard matches that have failed, and also decrement currentDepth.
  **/
 void decDepth(int speculationSucceded, SearchContext_t* context) {
-	if (context->speculationIndex >= 0 && context->speculativeMatches[context->speculationIndex] > 0) {
+	if (context->leafNodesOnly == false && context->speculationIndex >= 0 && context->speculativeMatches[context->speculationIndex] > 0) {
 		if (speculationSucceded == 0) {  // it failed so remove a saved match
 			context->numOfMatches--;
 			context->speculativeMatches[context->speculationIndex]--;
diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index ee1baac..ce2b610 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -196,7 +196,8 @@ func saveMatchingNode(thisNode *def.Node_t, context *SearchContext_t, done *bool
 		context.SpeculationIndex++
 	}
 	context.MaxValidation = getMaxValidation(VSSgetValidation(thisNode), context.MaxValidation)
-	if (VSSgetType(thisNode) != def.BRANCH  && VSSgetType(thisNode) != def.STRUCT || context.LeafNodesOnly == false) {
+	isLeaf := VSSgetType(thisNode) != def.BRANCH && VSSgetType(thisNode) != def.STRUCT
+	if (context.LeafNodesOnly == false || (isLeaf && context.CurrentDepth >= countSegments(context.SearchPath))) {
 		if ( isGetLeafNodeList == false && isGetUuidList == false) {
 			context.SearchData[context.NumOfMatches].NodePath = context.MatchPath
 			context.SearchData[context.NumOfMatches].NodeHandle = thisNode
@@ -277,14 +278,15 @@ func popPathSegment(context *SearchContext_t) {
 func getPathSegment(offset int, context *SearchContext_t) string {
 	frontDelimiter := 0
 	for i := 1 ; i < context.CurrentDepth + offset ; i++ {
-		frontDelimiter += strings.Index(context.SearchPath[frontDelimiter+1:], ".") + 1
-		if (frontDelimiter == -1) {
+		nextDelimiter := strings.Index(context.SearchPath[frontDelimiter+1:], ".")
+		if (nextDelimiter == -1) {
 			if (context.SearchPath[len(context.SearchPath)-1] == '*' && context.CurrentDepth < context.MaxDepth) {
 				return "*"
 			} else {
 				return ""
 			}
 		}
+		frontDelimiter += nextDelimiter + 1
 	}
 	endDelimiter := strings.Index(context.SearchPath[frontDelimiter+1:], ".") + frontDelimiter + 1
 	if (endDelimiter == frontDelimiter) {
@@ -306,7 +308,7 @@ func incDepth(thisNode *def.Node_t, context *SearchContext_t) {
  **/
 func decDepth(speculationSucceded int, context *SearchContext_t) {
 	//fmt.Printf("decDepth():speculationSucceded=%d\n", speculationSucceded)
-	if (context.SpeculationIndex >= 0 && context.SpeculativeMatches[context.SpeculationIndex] > 0) {
+	if (context.LeafNodesOnly == false && context.SpeculationIndex >= 0 && context.SpeculativeMatches[context.SpeculationIndex] > 0) {
 		if (speculationSucceded == 0) {  // it failed so remove a saved match
 			context.NumOfMatches--
 			context.SpeculativeMatches[context.SpeculationIndex]--
-- 
2.43.0


From 9e7687f2cf1be630ee9b11079ed2ee4a4585d7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:07 +0000
Subject: [PATCH 18/57] fix: binary export encodes lengths in bytes and rejects
 what does not fit

---
 .../vspec/vssexporters/vss2binary.py          | 34 ++++++++++++++-----
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2binary.py b/src/vss_tools/vspec/vssexporters/vss2binary.py
index 9b72797..3f3d03f 100644
--- a/src/vss_tools/vspec/vssexporters/vss2binary.py
+++ b/src/vss_tools/vspec/vssexporters/vss2binary.py
@@ -25,6 +25,7 @@
 # if a field is not present (e.g. min, max, unit, allowed, default, validate),
 # the length is 0.
 
+import io
 import struct
 from pathlib import Path
 from typing import BinaryIO
@@ -37,16 +38,23 @@ from vss_tools.vspec.main import get_trees
 from vss_tools.vspec.tree import VSSNode
 
 
+class BinaryExporterException(Exception):
+    """Raised if the model cannot be represented in the binary format."""
+
+
 def allowedString(allowedList):
     allowedStr = ""
     for elem in allowedList:
-        allowedStr += hexAllowedLen(elem) + elem
+        allowedStr += hexAllowedLen(str(elem)) + str(elem)
     return allowedStr
 
 
 def hexAllowedLen(allowed):
-    hexDigit1 = len(allowed) // 16
-    hexDigit2 = len(allowed) - hexDigit1 * 16
+    length = len(allowed.encode())
+    if length > 255:
+        raise BinaryExporterException(f"Allowed value too long for the binary format: '{allowed}'")
+    hexDigit1 = length // 16
+    hexDigit2 = length - hexDigit1 * 16
     return "".join([intToHexChar(hexDigit1), intToHexChar(hexDigit2)])
 
 
@@ -57,18 +65,24 @@ def intToHexChar(hexInt):
         return chr(hexInt - 10 + ord("A"))
 
 
-# Create a struct containing the length of the string as uint8
+# Create a struct containing the length of the (encoded) string as uint8
 #  and the string itself
 def create_l8v_string(s: str) -> bytes:
-    pack = struct.pack(f"{len(s)+1}p", s.encode())
+    data = s.encode()
+    if len(data) > 255:
+        raise BinaryExporterException(f"String too long for the binary format: '{s}'")
+    pack = struct.pack(f"{len(data)+1}p", data)
     # log.debug(f"create_l8v_string: {s} as {pack.hex()}")
     return pack
 
 
-# Create a struct containing the length of the string as uint16
+# Create a struct containing the length of the (encoded) string as uint16
 #  and the string itself
 def create_l16v_string(s: str) -> bytes:
-    pack = struct.pack(f"=H{len(s)}s", len(s), s.encode())
+    data = s.encode()
+    if len(data) > 65535:
+        raise BinaryExporterException(f"String too long for the binary format: '{s}'")
+    pack = struct.pack(f"=H{len(data)}s", len(data), data)
     # log.debug(f"create_l16v_string: {s} as {pack.hex()}")
     return pack
 
@@ -98,6 +112,8 @@ def export_node(node: VSSNode, generate_uuid, f: BinaryIO):
     f.write(create_l8v_string(str(data.get("default", ""))))
     f.write(create_l8v_string(str(data.get("validate", ""))))
 
+    if len(node.children) > 255:
+        raise BinaryExporterException(f"Too many children for the binary format: '{node.get_fqn()}'")
     f.write(struct.pack("B", len(node.children)))
 
     for child in node.children:
@@ -143,6 +159,8 @@ def cli(
         overlays=overlays,
     )
     log.info("Generating binary output...")
+    buffer = io.BytesIO()
+    export_node(tree, uuid, buffer)
     with open(str(output), "wb") as f:
-        export_node(tree, uuid, f)
+        f.write(buffer.getvalue())
     log.info("Binary output generated in %s", output)
-- 
2.43.0


From 033a6f31d66945007fa8f39627e3d8f88ffb8398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:02 +0000
Subject: [PATCH 19/57] fix: protobuf export writes complete files, also when
 repeated or aborted

---
 .../vspec/vssexporters/vss2protobuf.py        | 79 +++++++++++--------
 1 file changed, 46 insertions(+), 33 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 1072a79..5741d39 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -10,7 +10,7 @@
 #
 
 import sys
-from io import TextIOWrapper
+from io import StringIO
 from pathlib import Path
 
 import rich_click as click
@@ -38,15 +38,16 @@ mapped = {
 }
 
 
-def init_package_file(path: Path, package_name: str):
-    with open(path, "w") as f:
-        log.info(f"Initializing {path}, package {package_name}")
-        f.write('syntax = "proto3";\n\n')
-        f.write(f"package {package_name};\n\n")
+def init_package_file(f: StringIO, path: Path, package_name: str):
+    log.info(f"Initializing {path}, package {package_name}")
+    f.write('syntax = "proto3";\n\n')
+    f.write(f"package {package_name};\n\n")
 
 
-def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool, out_dir: Path):
+def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool, out_dir: Path) -> dict[Path, StringIO]:
     """
+    Returns the contents of all files to be written.
+
     All structs in a branch are written to a single .proto file.
     The file's base name is same as the branch's name
     The fully qualified path of the type becomes the package.
@@ -60,6 +61,7 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
     A/B/C/C.proto
     """
 
+    files: dict[Path, StringIO] = {}
     node: VSSNode
     for node in findall(tree, filter_=lambda n: isinstance(n.data, VSSDataStruct)):
         # A/B/C/MyType
@@ -67,32 +69,33 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
 
         # <out-dir>/A/B/C
         package_path = out_dir / struct_path.parent
-        package_path.mkdir(parents=True, exist_ok=True)
 
         # <out-dir>/A/B/C/C.proto
         out_file = package_path / f"{package_path.name}.proto"
-        if not out_file.exists():
-            init_package_file(out_file, ".".join(struct_path.parent.parts))
-
-        with open(out_file, "a") as fd:
-            imports = []
-            for c_node in findall(node, filter_=lambda n: isinstance(n.data, VSSDataDatatype)):
-                datatype = c_node.data.datatype
-                if "." not in datatype:
-                    continue
-                c_struct_path = Path(datatype.replace(".", "/"))
-                if c_struct_path.parent != struct_path.parent:
-                    imports.append(f"{c_struct_path.parent}/{c_struct_path.parent.name}.proto")
-
-            write_imports(fd, imports)
-
-            fd.write(f"message {struct_path.name} {{" + "\n")
-            print_messages(node.children, fd, static_uid, add_optional)
-            fd.write("}\n\n")
-            log.info(f"Wrote {struct_path.name} to {out_file}")
+        if out_file not in files:
+            files[out_file] = StringIO()
+            init_package_file(files[out_file], out_file, ".".join(struct_path.parent.parts))
+
+        fd = files[out_file]
+        imports = []
+        for c_node in findall(node, filter_=lambda n: isinstance(n.data, VSSDataDatatype)):
+            datatype = c_node.data.datatype
+            if "." not in datatype:
+                continue
+            c_struct_path = Path(datatype.replace(".", "/"))
+            if c_struct_path.parent != struct_path.parent:
+                imports.append(f"{c_struct_path.parent}/{c_struct_path.parent.name}.proto")
+
+        write_imports(fd, imports)
+
+        fd.write(f"message {struct_path.name} {{" + "\n")
+        print_messages(node.children, fd, static_uid, add_optional)
+        fd.write("}\n\n")
+        log.info(f"Adding {struct_path.name} to {out_file}")
+    return files
 
 
-def traverse_signal_tree(tree: VSSNode, fd: TextIOWrapper, static_uid: bool, add_optional: bool):
+def traverse_signal_tree(tree: VSSNode, fd: StringIO, static_uid: bool, add_optional: bool):
     fd.write('syntax = "proto3";\n\n')
 
     imports = []
@@ -111,7 +114,7 @@ def traverse_signal_tree(tree: VSSNode, fd: TextIOWrapper, static_uid: bool, add
         fd.write("}\n\n")
 
 
-def write_imports(fd: TextIOWrapper, imports: list[str]):
+def write_imports(fd: StringIO, imports: list[str]):
     imports = list(set(imports))
     imports.sort()
     for stmt in imports:
@@ -119,7 +122,7 @@ def write_imports(fd: TextIOWrapper, imports: list[str]):
     fd.write("\n")
 
 
-def print_messages(nodes: tuple[VSSNode], fd: TextIOWrapper, static_uid: bool, add_optional: bool):
+def print_messages(nodes: tuple[VSSNode], fd: StringIO, static_uid: bool, add_optional: bool):
     usedKeys: dict[int, str] = {}
     for i, node in enumerate(nodes, 1):
         if isinstance(node.data, VSSDataDatatype):
@@ -155,7 +158,6 @@ def print_messages(nodes: tuple[VSSNode], fd: TextIOWrapper, static_uid: bool, a
                         "Consider changing the signals to alter the staticUID."
                     )
                 )
-                fd.truncate(0)
                 sys.exit(-1)
             else:
                 usedKeys[fieldNumber] = node.get_fqn()
@@ -216,12 +218,23 @@ def cli(
         types=types,
         overlays=overlays,
     )
+    # Nothing is written before everything has been generated
+    files: dict[Path, StringIO] = {}
     if datatype_tree:
         if not types_out_dir:
             types_out_dir = Path.cwd()
             log.warning(f"No output directory given. Writing to: {types_out_dir.absolute()}")
-        traverse_data_type_tree(datatype_tree, static_uid, add_optional, types_out_dir)
+        files = traverse_data_type_tree(datatype_tree, static_uid, add_optional, Path(types_out_dir))
+
+    signals = StringIO()
+    traverse_signal_tree(tree, signals, static_uid, add_optional)
+
+    for path, content in files.items():
+        path.parent.mkdir(parents=True, exist_ok=True)
+        with open(path, "w") as f:
+            log.info(f"Writing to: {path}")
+            f.write(content.getvalue())
 
     with open(output, "w") as f:
         log.info(f"Writing to: {output}")
-        traverse_signal_tree(tree, f, static_uid, add_optional)
+        f.write(signals.getvalue())
-- 
2.43.0


From 33035cb81b11fe1e2742d48cc0570a2dbde22c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:25 +0000
Subject: [PATCH 20/57] fix: protobuf export imports every file only once

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 5741d39..b7ced82 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -62,6 +62,7 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
     """
 
     files: dict[Path, StringIO] = {}
+    imported: dict[Path, set[str]] = {}
     node: VSSNode
     for node in findall(tree, filter_=lambda n: isinstance(n.data, VSSDataStruct)):
         # A/B/C/MyType
@@ -74,6 +75,7 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
         out_file = package_path / f"{package_path.name}.proto"
         if out_file not in files:
             files[out_file] = StringIO()
+            imported[out_file] = set()
             init_package_file(files[out_file], out_file, ".".join(struct_path.parent.parts))
 
         fd = files[out_file]
@@ -86,7 +88,9 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
             if c_struct_path.parent != struct_path.parent:
                 imports.append(f"{c_struct_path.parent}/{c_struct_path.parent.name}.proto")
 
-        write_imports(fd, imports)
+        # Every file must be imported only once
+        write_imports(fd, [i for i in imports if i not in imported[out_file]])
+        imported[out_file].update(imports)
 
         fd.write(f"message {struct_path.name} {{" + "\n")
         print_messages(node.children, fd, static_uid, add_optional)
-- 
2.43.0


From b71da41d6105a21f091ca3d1c27721121bacea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:25 +0000
Subject: [PATCH 21/57] fix: protobuf export rejects static UIDs that give the
 invalid field number 0

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index b7ced82..696ea4e 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -154,6 +154,11 @@ def print_messages(nodes: tuple[VSSNode], fd: StringIO, static_uid: bool, add_op
                 log.fatal("""Aborting because field number {fieldNumber} for signal {node.name} is in
                 reservered range between 19000 and 20000. Consider changing the signal to alter the staticUID.""")
                 sys.exit(-1)
+            if fieldNumber < 1:
+                log.fatal(
+                    f"Aborting because the staticUID of {node.get_fqn()} is too small to be used as field number."
+                )
+                sys.exit(-1)
             if fieldNumber in usedKeys:
                 log.fatal(
                     (
-- 
2.43.0


From 98c72e454e02aba3be3b59866f8e5192c07021c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:21 +0000
Subject: [PATCH 22/57] fix: go export shares a struct between instances only
 if they are equal

---
 src/vss_tools/vspec/vssexporters/vss2go.py | 29 ++++++++++++++++------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2go.py b/src/vss_tools/vspec/vssexporters/vss2go.py
index 90cafa9..47432b0 100644
--- a/src/vss_tools/vspec/vssexporters/vss2go.py
+++ b/src/vss_tools/vspec/vssexporters/vss2go.py
@@ -13,7 +13,7 @@ import re
 from pathlib import Path
 
 import rich_click as click
-from anytree import PreOrderIter
+from anytree import PostOrderIter, PreOrderIter
 
 import vss_tools.vspec.cli_options as clo
 from vss_tools import log
@@ -134,6 +134,9 @@ class GoStruct:
         r += "}\n"
         return r
 
+    def same_members(self, other: GoStruct) -> bool:
+        return [(m.name, m.datatype) for m in self.members] == [(m.name, m.datatype) for m in other.members]
+
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, GoStruct):
             return False
@@ -151,19 +154,29 @@ def get_go_structs(root: VSSNode | None, map: dict[str, str], type_tree: bool =
     structs: dict[str, GoStruct] = {}
     if root is None:
         return structs
-    for node in PreOrderIter(root):
+    # Children first, a struct can only be shared by instances if all of its members are equal
+    node_structs: dict[str, GoStruct] = {}
+    for node in PostOrderIter(root):
         if isinstance(node.data, VSSDataBranch) or isinstance(node.data, VSSDataStruct):
-            struct = GoStruct(get_struct_name(node.get_fqn(), map))
+            fqn = node.get_fqn()
+            struct = GoStruct(get_struct_name(fqn, map))
             for child in node.children:
                 datatype = get_datatype(child)
                 if not datatype:
-                    datatype = get_struct_name(child.get_fqn(), map)
+                    datatype = node_structs[child.get_fqn()].name
                 member = GoStructMember(child.name, datatype)
                 struct.members.append(member)
-            if type_tree and isinstance(node.data, VSSDataBranch):
-                pass
-            else:
-                structs[struct.name] = struct
+            if struct.name in structs and not struct.same_members(structs[struct.name]):
+                struct.name = fqn
+            while struct.name in structs and not struct.same_members(structs[struct.name]):
+                struct.name += "_"
+            structs[struct.name] = struct
+            node_structs[fqn] = struct
+    structs = {}
+    for node in PreOrderIter(root):
+        if isinstance(node.data, VSSDataStruct) or (isinstance(node.data, VSSDataBranch) and not type_tree):
+            struct = node_structs[node.get_fqn()]
+            structs[struct.name] = struct
     return structs
 
 
-- 
2.43.0


From 21739e0c936c975dbbe8fba92748b3d90d8e7291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:21 +0000
Subject: [PATCH 23/57] fix: go export does not shorten struct names to
 colliding ones

---
 src/vss_tools/vspec/vssexporters/vss2go.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2go.py b/src/vss_tools/vspec/vssexporters/vss2go.py
index 47432b0..56f9e14 100644
--- a/src/vss_tools/vspec/vssexporters/vss2go.py
+++ b/src/vss_tools/vspec/vssexporters/vss2go.py
@@ -221,7 +221,8 @@ def get_prefix_strip_conflicts(prefix: str, structs: dict[str, GoStruct]) -> int
                 structs_new.append(".".join(split[1:]))
                 log.debug(f"New name: {structs_new[-1]}")
 
-    return len(structs_new) - len(set(structs_new))
+    # Names are written without dots
+    return len(structs_new) - len({s.replace(".", "") for s in structs_new})
 
 
 def is_only_instance(s: str) -> bool:
-- 
2.43.0


From fbb539c3ed93c31b1be855438f833a8dd8943f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:41 +0000
Subject: [PATCH 24/57] fix: graphql export creates no output if the schema
 cannot be generated

---
 src/vss_tools/vspec/vssexporters/vss2graphql.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index b259d9b..725bc1b 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -176,10 +176,10 @@ def cli(
         overlays=overlays,
     )
     log.info("Generating graphql output...")
-    outfile = open(output, "w")
     gqlfields: list[list[str]] = []
     for field in gql_fields:
         gqlfields.append(field.split(","))
-    outfile.write(get_schema_from_tree(tree, gqlfields))
-    outfile.write("\n")
-    outfile.close()
+    schema = get_schema_from_tree(tree, gqlfields)
+    with open(output, "w") as outfile:
+        outfile.write(schema)
+        outfile.write("\n")
-- 
2.43.0


From 2355e09dce6a2cfbbca79c22d2f69e4fc6b9b90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:41 +0000
Subject: [PATCH 25/57] fix: graphql export keeps fields whose camel back names
 are equal

---
 src/vss_tools/vspec/vssexporters/vss2graphql.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index 725bc1b..1a1af89 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -118,8 +118,11 @@ def leaf_fields(node: VSSNode, additional_leaf_fields: list) -> Dict[str, GraphQ
 
 def branch_fields(node: VSSNode, additional_leaf_fields: list) -> Dict[str, GraphQLField]:
     # we only consider nodes that either have children or are datatype leafs
-    valid = (c for c in node.children if len(c.children) or hasattr(c.data, "datatype"))
-    return {camel_back(c.name): field(c, type=to_gql_type(c, additional_leaf_fields)) for c in valid}
+    valid = [c for c in node.children if len(c.children) or hasattr(c.data, "datatype")]
+    names = [camel_back(c.name) for c in valid]
+    # names that only differ in case (e.g. "CO" and "Co") must not replace each other
+    names = [c.name if names.count(n) > 1 else n for c, n in zip(valid, names)]
+    return {n: field(c, type=to_gql_type(c, additional_leaf_fields)) for c, n in zip(valid, names)}
 
 
 def field(node: VSSNode, description_prefix="", type=GraphQLString) -> GraphQLField:
-- 
2.43.0


From d6e29211714c01ff6103ace861ac6b76a9ab7acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:41 +0000
Subject: [PATCH 26/57] fix: graphql export has no types without fields for
 branches without leafs

---
 src/vss_tools/vspec/vssexporters/vss2graphql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index 1a1af89..d2f0e74 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -117,8 +117,8 @@ def leaf_fields(node: VSSNode, additional_leaf_fields: list) -> Dict[str, GraphQ
 
 
 def branch_fields(node: VSSNode, additional_leaf_fields: list) -> Dict[str, GraphQLField]:
-    # we only consider nodes that either have children or are datatype leafs
-    valid = [c for c in node.children if len(c.children) or hasattr(c.data, "datatype")]
+    # we only consider nodes that are or contain datatype leafs
+    valid = [c for c in node.children if any(hasattr(n.data, "datatype") for n in (c, *c.descendants))]
     names = [camel_back(c.name) for c in valid]
     # names that only differ in case (e.g. "CO" and "Co") must not replace each other
     names = [c.name if names.count(n) > 1 else n for c, n in zip(valid, names)]
-- 
2.43.0


From b8bd57ff91499e56911e977c3725bc015dd26b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:30 +0000
Subject: [PATCH 27/57] fix: jsonschema export keeps default values 0, false
 and empty

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index 8c67d09..2e2d491 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -80,7 +80,7 @@ def export_node(
         json_dict[node.name]["enum"] = allowed
 
     default = getattr(data, "default", None)
-    if default:
+    if default is not None:
         json_dict[node.name]["default"] = default
 
     if isinstance(data, VSSDataStruct):
-- 
2.43.0


From 3116f5f88f896d7fa564cd856f21168910aae02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:30 +0000
Subject: [PATCH 28/57] fix: jsonschema export supports signals with struct
 datatypes

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index 2e2d491..e21cad3 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -49,6 +49,11 @@ type_map = {
 }
 
 
+def get_json_type(datatype: str) -> str:
+    """JSON type of a primitive or struct datatype"""
+    return type_map.get(datatype, "array" if datatype.endswith("[]") else "object")
+
+
 def export_node(
     json_dict,
     node: VSSNode,
@@ -65,7 +70,7 @@ def export_node(
     }
 
     if isinstance(data, VSSDataDatatype):
-        json_dict[node.name]["type"] = type_map[data.datatype]
+        json_dict[node.name]["type"] = get_json_type(data.datatype)
 
     min = getattr(data, "min", None)
     if min is not None:
-- 
2.43.0


From 6c76e088576c75e70c2bef9f445c4828fe0b51a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:30 +0000
Subject: [PATCH 29/57] fix: jsonschema export with types and all extended
 attributes does not fail

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index e21cad3..c349ccf 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -212,6 +212,12 @@ def cli(
         require_all_properties,
     )
 
+    # VSS models only have one root, so there should only be one
+    # key in the dict
+    assert len(signals_json_schema.keys()) == 1
+    top_node_name = list(signals_json_schema.keys())[0]
+    signals_json_schema = signals_json_schema.pop(top_node_name)
+
     # Add data types to the schema
     if datatype_tree is not None:
         data_types_json_schema: Dict[str, Any] = {}
@@ -226,12 +232,6 @@ def cli(
         if extend_all_attributes:
             signals_json_schema["x-ComplexDataTypes"] = data_types_json_schema
 
-    # VSS models only have one root, so there should only be one
-    # key in the dict
-    assert len(signals_json_schema.keys()) == 1
-    top_node_name = list(signals_json_schema.keys())[0]
-    signals_json_schema = signals_json_schema.pop(top_node_name)
-
     json_schema = {
         "$schema": "https://json-schema.org/draft/2020-12/schema",
         "title": top_node_name,
-- 
2.43.0


From 38432f1a06c52228111d3bf261d1943b1fd405d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:30 +0000
Subject: [PATCH 30/57] fix: jsonschema export applies limits and allowed
 values to the elements of arrays

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index c349ccf..668cf67 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -72,17 +72,24 @@ def export_node(
     if isinstance(data, VSSDataDatatype):
         json_dict[node.name]["type"] = get_json_type(data.datatype)
 
+    # limits and allowed values of arrays apply to their elements
+    constraints: Dict[str, Any] = {}
     min = getattr(data, "min", None)
     if min is not None:
-        json_dict[node.name]["minimum"] = min
+        constraints["minimum"] = min
 
     max = getattr(data, "max", None)
     if max is not None:
-        json_dict[node.name]["maximum"] = max
+        constraints["maximum"] = max
 
     allowed = getattr(data, "allowed", None)
     if allowed:
-        json_dict[node.name]["enum"] = allowed
+        constraints["enum"] = allowed
+
+    if constraints and json_dict[node.name].get("type") == "array":
+        json_dict[node.name]["items"] = constraints
+    else:
+        json_dict[node.name].update(constraints)
 
     default = getattr(data, "default", None)
     if default is not None:
-- 
2.43.0


From 1705749e841bf3fc5618c06586061d32690bf7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:30 +0000
Subject: [PATCH 31/57] fix: jsonschema export selects extended attributes as
 documented

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index 668cf67..d1a733b 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -58,6 +58,7 @@ def export_node(
     json_dict,
     node: VSSNode,
     print_uuid: bool,
+    extended_attributes: tuple[str, ...],
     all_extended_attributes: bool,
     no_additional_properties: bool,
     require_all_properties: bool,
@@ -124,7 +125,8 @@ def export_node(
             json_dict[node.name]["x-uuid"] = node.uuid
 
     for field in data.get_extra_attributes():
-        json_dict[node.name][field] = getattr(data, field)
+        if all_extended_attributes or field in extended_attributes:
+            json_dict[node.name][field] = getattr(data, field)
 
     # Generate child nodes
     if isinstance(data, VSSDataBranch) or isinstance(node.data, VSSDataStruct):
@@ -138,6 +140,7 @@ def export_node(
                 json_dict[node.name]["properties"],
                 child,
                 print_uuid,
+                extended_attributes,
                 all_extended_attributes,
                 no_additional_properties,
                 require_all_properties,
@@ -214,6 +217,7 @@ def cli(
         signals_json_schema,
         tree,
         uuid,
+        extended_attributes,
         extend_all_attributes,
         no_additional_properties,
         require_all_properties,
@@ -232,6 +236,7 @@ def cli(
             data_types_json_schema,
             datatype_tree,
             uuid,
+            extended_attributes,
             extend_all_attributes,
             no_additional_properties,
             require_all_properties,
-- 
2.43.0


From 425dff42a7e848fef412409d9bb219a08e018f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:36 +0000
Subject: [PATCH 32/57] fix: ddsidl export escapes all IDL and Python keywords

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 4107789..cd02b96 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -146,7 +146,8 @@ idl_keywords = [
 
 
 def getAllowedName(name):
-    if name.lower() in c_keywords or name.lower() in idl_keywords or keyword.iskeyword(name.lower):
+    # IDL identifiers must not differ from keywords in case only
+    if name.lower() in c_keywords or name.lower() in map(str.lower, idl_keywords) or keyword.iskeyword(name.lower()):
         return "_" + name
     else:
         return name
-- 
2.43.0


From 76c7998c69212120d12647182c79c6f367629731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:36 +0000
Subject: [PATCH 33/57] fix: ddsidl export creates no output if the IDL cannot
 be generated

---
 .../vspec/vssexporters/vss2ddsidl.py          | 28 ++++++-------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index cd02b96..177cc5b 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -373,15 +373,6 @@ class StructExporter(object):
         self.str_buf += suffix
 
 
-def export_idl(file, root, generate_uuids=True, generate_all_idl_features=False):
-    """This method is used to traverse through the root VSS node to build
-    -> DDS IDL equivalent string buffer and to serialize it acccordingly into a file
-    """
-    export_node(root, generate_uuids, generate_all_idl_features)
-    file.write("\n".join(idl_file_buffer))
-    log.info("IDL file generated at location : " + file.name)
-
-
 @click.command()
 @clo.vspec_opt
 @clo.output_required_opt
@@ -430,15 +421,12 @@ def cli(
     )
     log.info("Generating DDS-IDL output...")
 
+    types_idl = ""
     if datatype_tree is not None:
-        exporter = StructExporter()
-        with open(output, "w") as idl_out:
-            idl_out.write(exporter.export(datatype_tree))
-
-    with open(output, "a" if datatype_tree is not None else "w") as idl_out:
-        export_idl(
-            idl_out,
-            tree,
-            uuid,
-            all_idl_features,
-        )
+        types_idl = StructExporter().export(datatype_tree)
+    export_node(tree, uuid, all_idl_features)
+
+    with open(output, "w") as idl_out:
+        idl_out.write(types_idl)
+        idl_out.write("\n".join(idl_file_buffer))
+    log.info(f"IDL file generated at location : {output}")
-- 
2.43.0


From 0f915bb4bc0aabfa9c178fb781239f3a31d312e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:36 +0000
Subject: [PATCH 34/57] fix: ddsidl export escapes texts, line breaks do not
 break the IDL

---
 .../vspec/vssexporters/vss2ddsidl.py          | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 177cc5b..38cbcd1 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -170,6 +170,13 @@ def get_allowed_enum_literal(name: str):
     return name
 
 
+def get_string_literal(text: str) -> str:
+    """Returns the IDL string literal for the text, always on one line"""
+    for char, escape in (("\\", "\\\\"), ('"', '\\"'), ("\n", "\\n"), ("\r", "\\r")):
+        text = text.replace(char, escape)
+    return f'"{text}"'
+
+
 idl_file_buffer = []
 
 dataTypesMap_covesa_dds = {
@@ -257,9 +264,9 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
         max = getattr(node.data, "max")
 
         default = getattr(node.data, "default")
-        if default:
+        if default is not None:
             if isinstance(default, str) and not enum_created:
-                default = '"' + default + '"'
+                default = get_string_literal(default)
 
         if datatype is not None:
             # adding range if min and max are specified in vspec file
@@ -298,7 +305,9 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
                     )
 
         if unit is not None:
-            idl_file_buffer.append(("" if generate_all_idl_features else "//") + 'const string unit="' + unit + '";')
+            idl_file_buffer.append(
+                ("" if generate_all_idl_features else "//") + "const string unit=" + get_string_literal(unit) + ";"
+            )
 
         data = node.get_vss_data()
         idl_file_buffer.append(
@@ -306,7 +315,10 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
         )
 
         idl_file_buffer.append(
-            ("" if generate_all_idl_features else "//") + 'const string description="' + data.description + '";'
+            ("" if generate_all_idl_features else "//")
+            + "const string description="
+            + get_string_literal(data.description)
+            + ";"
         )
         idl_file_buffer.append("};")
 
-- 
2.43.0


From 93f98e43836d4e19a15f65fe5bc5e334f9d68175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:36 +0000
Subject: [PATCH 35/57] fix: ddsidl export gives defaults of enums as enum
 literals

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 38cbcd1..abf6343 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -300,7 +300,11 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
                         + "_M::"
                         + getAllowedName(node.name)
                         + "Values value"
-                        + (" " + str(default) if generate_all_idl_features else "")
+                        + (
+                            "  default " + get_allowed_enum_literal(str(default))
+                            if generate_all_idl_features and isinstance(default, str)
+                            else ""
+                        )
                         + ";"
                     )
 
-- 
2.43.0


From 5aaabc9a2b4062d56e5e2421a4e8d285be24c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:48 +0000
Subject: [PATCH 36/57] fix: ddsidl export maps all datatypes of signals and
 struct properties

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index abf6343..b09addb 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -195,6 +195,11 @@ dataTypesMap_covesa_dds = {
 }
 
 
+def get_idl_type(datatype: str) -> str:
+    """Returns the IDL type of a primitive datatype or a struct, without array suffix"""
+    return dataTypesMap_covesa_dds.get(datatype, "::".join(getAllowedName(name) for name in datatype.split(".")))
+
+
 def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: bool) -> None:
     """
     This method is used to traverse VSS node and to create corresponding DDS IDL buffer string
@@ -250,11 +255,10 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
                     datatype = str(dataTypesMap_covesa_dds[datatype])
                 elif "[" in datatype:
                     nodevalueArray = datatype.split("[", 1)
-                    if str(nodevalueArray[0]) in dataTypesMap_covesa_dds:
-                        datatype = str(dataTypesMap_covesa_dds[str(nodevalueArray[0])])
-                        arraysize = "[" + str(arraysize) + nodevalueArray[1]
+                    datatype = get_idl_type(nodevalueArray[0])
+                    arraysize = "[" + str(arraysize) + nodevalueArray[1]
                 else:  # no primitive type. this is custom
-                    datatype = datatype.replace(".", "::")  # custom data type
+                    datatype = get_idl_type(datatype)  # custom data type
 
         except AttributeError:
             pass
@@ -375,7 +379,7 @@ class StructExporter(object):
             self.structs_seen.append(node.get_fqn("::").split("[", 1)[0])
         else:
             datatype = getattr_nn(node.data, "datatype", "")
-            datatype_str = datatype.replace(".", "::").split("[", 1)[0]
+            datatype_str = get_idl_type(datatype.split("[", 1)[0])
             is_seq = "[" in datatype
             if is_seq:
                 self.str_buf += f"sequence<{datatype_str}> {getAllowedName(node.name)};\n"
-- 
2.43.0


From aa80480385cf4828357ce04e0ba0393919b56b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:53 +0000
Subject: [PATCH 37/57] fix: ddsidl export defines structs before they are used

---
 .../vspec/vssexporters/vss2ddsidl.py          | 76 +++++++++----------
 1 file changed, 35 insertions(+), 41 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index b09addb..173d0b3 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -11,9 +11,11 @@
 #
 
 import keyword
+import os
 from pathlib import Path
 
 import rich_click as click
+from anytree import PreOrderIter
 
 import vss_tools.vspec.cli_options as clo
 from vss_tools import log
@@ -339,58 +341,50 @@ class StructExporter(object):
     def __init__(self):
         self.str_buf = ""
         self.structs_seen = []
+        self.modules = []
 
     def export(self, root) -> str:
         self.str_buf = ""
         self.structs_seen = []
-        self.export_data_type_node(root)
+        self.modules = []
+        structs = {node.get_fqn(): node for node in PreOrderIter(root) if isinstance(node.data, VSSDataStruct)}
+        for struct in structs.values():
+            self.export_struct(struct, structs)
+        self.enter_modules([])
         return self.str_buf
 
-    def export_data_type_node(self, node: VSSNode):
+    def enter_modules(self, modules: list[str]) -> None:
         """
-        This method is used to traverse VSS node and to create corresponding DDS IDL buffer string
+        Closes and opens modules to get from the current module to the given one
         """
+        common = len(os.path.commonprefix([self.modules, modules]))
+        self.str_buf += "};\n" * (len(self.modules) - common)
+        for module in modules[common:]:
+            self.str_buf += f"module {getAllowedName(module)}" + " {\n"
+        self.modules = modules
 
-        prefix = ""
-        suffix = ""
-        if isinstance(node.data, VSSDataBranch):
-            prefix = f"module {getAllowedName(node.name)}" + " {\n"
-            suffix = "};\n"
-        elif isinstance(node.data, VSSDataStruct):
-            # check if the properties use structs that have not been seen before
-            # if not, add a forward declaration
-            fwds = []
-            for c in node.children:
-                datatype = getattr_nn(c.data, "datatype", "")
-                if not datatype.startswith("Types."):
-                    continue
-
-                datatype_str = datatype(".", "::").split("[", 1)[0]
-                if datatype_str not in self.structs_seen:
-                    base_type = datatype_str.split("::")[-1]
-                    fwds.append(base_type)
-
-            fwds.sort()
-            for f in set(fwds):
-                prefix += f"struct {f};\n"
-
-            prefix += f"struct {getAllowedName(node.name)}" + " {\n"
-            suffix = "};\n"
-            self.structs_seen.append(node.get_fqn("::").split("[", 1)[0])
-        else:
-            datatype = getattr_nn(node.data, "datatype", "")
+    def export_struct(self, node: VSSNode, structs: dict[str, VSSNode]) -> None:
+        """
+        Adds the IDL of a struct, after that of the structs it uses, as IDL types must be defined before they are used
+        """
+        if node in self.structs_seen:
+            return
+        self.structs_seen.append(node)
+        datatypes = [getattr_nn(c.data, "datatype", "") for c in node.children]
+        for datatype in datatypes:
+            base_type = datatype.split("[", 1)[0]
+            if base_type in structs:
+                self.export_struct(structs[base_type], structs)
+
+        self.enter_modules([n.name for n in node.ancestors])
+        self.str_buf += f"struct {getAllowedName(node.name)}" + " {\n"
+        for child, datatype in zip(node.children, datatypes):
             datatype_str = get_idl_type(datatype.split("[", 1)[0])
-            is_seq = "[" in datatype
-            if is_seq:
-                self.str_buf += f"sequence<{datatype_str}> {getAllowedName(node.name)};\n"
+            if "[" in datatype:
+                self.str_buf += f"sequence<{datatype_str}> {getAllowedName(child.name)};\n"
             else:
-                self.str_buf += f"{datatype_str} {getAllowedName(node.name)};\n"
-
-        self.str_buf += f"{prefix}"
-
-        for child in node.children:
-            self.export_data_type_node(child)
-        self.str_buf += suffix
+                self.str_buf += f"{datatype_str} {getAllowedName(child.name)};\n"
+        self.str_buf += "};\n"
 
 
 @click.command()
-- 
2.43.0


From 08c4c4ef222375e2fec17c41e348c09d9bb7fb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:38 +0000
Subject: [PATCH 38/57] fix: franca export escapes quotes and backslashes in
 strings

---
 src/vss_tools/vspec/vssexporters/vss2franca.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2franca.py b/src/vss_tools/vspec/vssexporters/vss2franca.py
index c1192df..34f85a3 100644
--- a/src/vss_tools/vspec/vssexporters/vss2franca.py
+++ b/src/vss_tools/vspec/vssexporters/vss2franca.py
@@ -47,6 +47,11 @@ const SignalSpec[] signal_spec = [
 """)
 
 
+def escape(text: str) -> str:
+    """Escapes a text for a Franca string literal"""
+    return text.replace("\\", "\\\\").replace('"', '\\"')
+
+
 # Write the data lines
 def print_franca_content(file: TextIOWrapper, root: VSSNode, with_uuid: bool) -> None:
     output = ""
@@ -60,7 +65,7 @@ def print_franca_content(file: TextIOWrapper, root: VSSNode, with_uuid: bool) ->
                 output += "{"
             output += f'\tname: "{node.get_fqn()}"'
             output += f',\n\ttype: "{data.type.value}"'
-            output += f',\n\tdescription: "{data.description}"'
+            output += f',\n\tdescription: "{escape(data.description)}"'
             datatype = getattr(data, "datatype", None)
             if datatype:
                 output += f',\n\tdatatype: "{datatype}"'
@@ -68,7 +73,7 @@ def print_franca_content(file: TextIOWrapper, root: VSSNode, with_uuid: bool) ->
                 output += f',\n\tuuid: "{node.uuid}"'
             unit = getattr(data, "unit", None)
             if unit:
-                output += f',\n\tunit: "{unit}"'
+                output += f',\n\tunit: "{escape(unit)}"'
             min = getattr(data, "min", None)
             if min is not None:
                 output += f",\n\tmin: {min}"
-- 
2.43.0


From fb341d2cd7780bb79f95b870d22abd1d6567be09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:13 +0000
Subject: [PATCH 39/57] fix: apigear solution keeps the complete template paths

---
 src/vss_tools/vspec/vssexporters/vss2apigear.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index 8984341..e3614a1 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -380,16 +380,16 @@ def generate_solution(directory: Path, module_filename: str, module_name: str,
     for solution in layers:
         match solution:
             case SolutionLayers.UNREAL:
-                unreal["output"] = layers[solution].name
+                unreal["output"] = str(layers[solution])
                 yaml_dict["layers"].append(unreal)
             case SolutionLayers.CPP:
-                cpp14["output"] = layers[solution].name
+                cpp14["output"] = str(layers[solution])
                 yaml_dict["layers"].append(cpp14)
             case SolutionLayers.QT5:
-                qt5["output"] = layers[solution].name
+                qt5["output"] = str(layers[solution])
                 yaml_dict["layers"].append(qt5)
             case SolutionLayers.QT6:
-                qt6["output"] = layers[solution].name
+                qt6["output"] = str(layers[solution])
                 yaml_dict["layers"].append(qt6)
 
     solution_filename = f"{module_name}.solution.yaml"
-- 
2.43.0


From 6caf8a5af097c2a68dcc811e41a8212a09160c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:13 +0000
Subject: [PATCH 40/57] fix: apigear enum values of integers are not read as
 hexadecimal

---
 src/vss_tools/vspec/vssexporters/vss2apigear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index e3614a1..41faee7 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -211,7 +211,7 @@ def export_node(node: VSSNode, module: ApiGearModule, interface: ApiGearInterfac
 
             for element in allowed:
                 element_str = str(element)
-                element_dec = hex_to_dec(element_str)
+                element_dec = element if type(element) is int else hex_to_dec(element_str)
                 variant = get_allowed_enum_literal(element_str)
                 log.debug(f"  New variant: {variant}")
                 datatype = getattr(data, "datatype")
-- 
2.43.0


From 4e4f9bf87e8c44cc43026ad24f176d84ce3cb40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:13 +0000
Subject: [PATCH 41/57] fix: apigear export creates no output directory if the
 module cannot be generated

---
 src/vss_tools/vspec/vssexporters/vss2apigear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index 41faee7..a16b266 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -432,6 +432,7 @@ def export_apigear(directory: Path, root: VSSNode, data_type_tree: VSSNode | Non
 
     export_node(root, module)
     export_data_type_node(data_type_tree, module)
+    directory.mkdir(parents=True)
     generate_solution(directory, module_filename, module_name, layers)
     generate_module(directory, module, module_name, module_filename)
     log.info(f"Apigear files generated at location: {directory}")
@@ -510,7 +511,6 @@ def cli(
     if output_dir.exists():
         log.error("Directory already exists. Aborting..")
         sys.exit(1)
-    output_dir.mkdir(exist_ok=True, parents=True)
 
     layers = {}
     if (apigear_template_unreal_path is not None):
-- 
2.43.0


From 0ac31fbc0f1f53eadcf59f6ff6ed73ad02922d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:13 +0000
Subject: [PATCH 42/57] fix: apigear export refers to deprecated structs by
 their exported name

---
 src/vss_tools/vspec/vssexporters/vss2apigear.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index a16b266..5567ea7 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -24,6 +24,7 @@ from vss_tools.vspec.datatypes import Datatypes
 from vss_tools.vspec.main import get_trees
 from pathlib import Path
 from math import inf
+from anytree import PreOrderIter
 
 
 class SolutionLayers(Flag):
@@ -432,6 +433,12 @@ def export_apigear(directory: Path, root: VSSNode, data_type_tree: VSSNode | Non
 
     export_node(root, module)
     export_data_type_node(data_type_tree, module)
+    if data_type_tree is not None:
+        # names of deprecated structs differ from those used in datatypes
+        names = {n.get_fqn("_"): node_name(n) for n in PreOrderIter(data_type_tree) if isinstance(n.data, VSSDataStruct)}
+        for owner in [*module.interfaces, *module.structures]:
+            for prop in owner.properties.values():
+                prop.type.type = names.get(prop.type.type, prop.type.type)
     directory.mkdir(parents=True)
     generate_solution(directory, module_filename, module_name, layers)
     generate_module(directory, module, module_name, module_filename)
-- 
2.43.0


From 639a6841f9955082edb024543bbcf27fc3a66c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 43/57] fix: samm export writes enumerations of any type and
 keeps texts as they are

---
 .../vssexporters/vss2samm/config/config.py    |  3 ---
 .../vss2samm/helpers/file_helper.py           | 21 +++++++------------
 .../vss2samm/helpers/ttl_builder_helper.py    |  5 +++--
 .../vss2samm/helpers/vss_helper.py            |  8 -------
 4 files changed, 11 insertions(+), 26 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/config/config.py b/src/vss_tools/vspec/vssexporters/vss2samm/config/config.py
index 22cd806..996c51f 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/config/config.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/config/config.py
@@ -9,9 +9,6 @@
 # General CONFIG variables
 SAMM_TYPE = "samm"
 SAMM_VERSION = "2.1.0"
-# Custom string, which we use to escape " and ' characters in VSS node description/comments
-# Used in file_helper.write_graph_to_file to properly escape characters in filedata, before to write it to a file.
-CUSTOM_ESCAPE_CHAR = "#V2E-ESC-CHAR#"
 
 # CONFIG Variable defined at runtime as per user input and in available init function
 OUTPUT_NAMESPACE = None
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
index 53daa48..3a9bc2b 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
@@ -6,12 +6,15 @@
 #
 # SPDX-License-Identifier: MPL-2.0
 
+import re
 from pathlib import Path
 
 from rdflib import Graph
 from vss_tools import log
 
-from ..config import config as cfg
+# A literal that represents a list and characters that are escaped in it
+LIST_PATTERN = re.compile(r'(samm:properties|samm:operations|samm:events|samm-c:values) "(\((?:[^"\\\n]|\\.)*\))" ')
+ESCAPED_PATTERN = re.compile(r"\\(.)")
 
 
 # Write RDF Graph data to specified file
@@ -25,18 +28,10 @@ def write_graph_to_file(path_to_file: Path, file_name: str, graph: Graph):
 
     filedata = graph.serialize(format="ttl")
 
-    # Clean up entries like: samm:operations "()" OR samm:operations "( )"
-    filedata = filedata.replace(' "()" ', " () ")
-    filedata = filedata.replace(' "( )" ', " ( ) ")
-    filedata = filedata.replace(' "( ', " ( ")
-    filedata = filedata.replace(' )" ', " ) ")
-
-    # Cleanup other escape characters, that were introduced automatically by some of used libraries/tools
-    filedata = filedata.replace("\\", "")
-
-    # Cleanup some CUSTOM ESCAPED, by this script characters.
-    # Usually double and single quotes in node.description or node.comment field
-    filedata = filedata.replace(cfg.CUSTOM_ESCAPE_CHAR, "\\")
+    # Lists like: samm:operations "()" or samm:properties "( ... )" are built as literals.
+    # Write them as lists, i.e. without the quotes and the escape characters of the literals.
+    # All other texts are already properly escaped.
+    filedata = LIST_PATTERN.sub(lambda m: f"{m[1]} {ESCAPED_PATTERN.sub(r'\1', m[2])} ", filedata)
 
     # Cleanup xsd:anyURI with xsd:double
     filedata = filedata.replace("xsd:anyURI", "xsd:double")
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
index 05e6570..ad46179 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
@@ -475,9 +475,10 @@ def get_enum_values(collection_to_process: list[str] | str):
 
     for value in collection_to_process:
         if type(value) is str:
-            enum_values += '"' + value + '" '
+            escaped = value.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r")
+            enum_values += '"' + escaped + '" '
         else:
-            enum_values += value + " "
+            enum_values += str(value).lower() + " "
 
     return Literal(f"( {enum_values.strip()} )")
 
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index 63ec712..f461096 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -16,7 +16,6 @@ from vss_tools.vspec.datatypes import Datatypes
 from vss_tools.vspec.model import NodeType, VSSDataBranch
 from vss_tools.vspec.tree import VSSNode
 
-from ..config import config as cfg
 from .data_types_and_units import DataTypes, DataUnits
 from .samm_concepts import SammCConcepts, SammConcepts
 from .string_helper import str_to_lc_first_camel_case, str_to_uc_first_camel_case
@@ -232,10 +231,6 @@ def get_node_description(vss_node: VSSNode) -> str:
         and vss_node.data.description
         and len(vss_node.data.description.strip()) > 0
     ):
-        if '"' in vss_node.data.description:
-            # Escape double quotes within vss_node.description
-            vss_node.data.description = vss_node.data.description.replace('"', f'{cfg.CUSTOM_ESCAPE_CHAR}"')
-
         # Set 3 spaces spacer, so to align 'VSS path:' with 'Description:'
         spacer = "    "
         description = f"\n\nDescription: {vss_node.data.description}"
@@ -243,9 +238,6 @@ def get_node_description(vss_node: VSSNode) -> str:
     # NOTE: there is also a vss_node.comment field which also holds some details
     #       Add the vss_node.comment to its description
     if hasattr(vss_node.data, "comment") and vss_node.data.comment and len(vss_node.data.comment.strip()) > 0:
-        if '"' in vss_node.data.comment:
-            vss_node.data.comment = vss_node.data.comment.replace('"', f'{cfg.CUSTOM_ESCAPE_CHAR}"')
-
         # Use the 3 empty spaces spacer, when there is description,
         # otherwise set it to align 'VSS path:' with 'Comment:'
         spacer = spacer if description else " "
-- 
2.43.0


From 79e0331428123295c4df2828fb3cc3611cb006f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 44/57] fix: samm export uses the VSS version also if parts of
 it are 0 or 1

---
 src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
index 76925b1..2e30230 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
@@ -68,7 +68,7 @@ def __get_version_vss(vss_tree: VSSNode) -> str:
                     v_child.name in ["Major", "Minor", "Patch"]
                     and hasattr(v_child.data, "default")
                     and type(v_child.data.default) is int
-                    and v_child.data.default > 1
+                    and v_child.data.default >= 0
                 ):
                     match v_child.name:
                         case "Major":
-- 
2.43.0


From 2fccabb098f041802721c3fb4e3ea513fe022a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 45/57] fix: samm export keeps default values 0, false and
 empty

---
 .../vssexporters/vss2samm/helpers/ttl_builder_helper.py     | 6 +++---
 .../vspec/vssexporters/vss2samm/helpers/vss_helper.py       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
index ad46179..d1f6c41 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
@@ -197,7 +197,7 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
                 # Handle ENUM type nodes
                 log.debug("  -- set node ENUM values")
 
-                if vss_node.data.default:  # type: ignore
+                if vss_node.data.default is not None:  # type: ignore
                     __add_node_tuple(
                         graph,
                         node_char_uri,
@@ -245,7 +245,7 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
 
                     rdf_type = SammConcepts.CHARACTERISTIC
 
-                if hasattr(vss_node.data, "default") and vss_node.data.default:
+                if hasattr(vss_node.data, "default") and vss_node.data.default is not None:
                     __add_node_tuple(
                         graph,
                         node_uri,
@@ -257,7 +257,7 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
                 # Handle CHARACTERISTIC type nodes
                 log.debug(" -- set regular node values")
 
-                if hasattr(vss_node.data, "default") and vss_node.data.default:
+                if hasattr(vss_node.data, "default") and vss_node.data.default is not None:
                     if (
                         hasattr(vss_node.data, "unit")
                         and vss_node.data.unit
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index f461096..5220068 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -422,7 +422,7 @@ def get_node_rdf_type(vss_node: VSSNode) -> SammConcepts | SammCConcepts:
     if hasattr(vss_node.data, "allowed") and vss_node.data.allowed and type(vss_node.data.allowed) is list:
         # NOTE: ENUM does not have defaultValue
         #       Instead defaultValue is part of STATE characteristic which inherits from ENUM
-        return SammCConcepts.ENUM if not vss_node.data.default else SammCConcepts.STATE  # type: ignore
+        return SammCConcepts.ENUM if vss_node.data.default is None else SammCConcepts.STATE  # type: ignore
 
     elif hasattr(vss_node.data, "datatype") and vss_node.data.datatype and vss_node.data.datatype.endswith("[]"):
         return SammCConcepts.LIST
-- 
2.43.0


From b7be3b77cb68830032894a3314f8f52a41908f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 46/57] fix: samm export has the same instances as the expanded
 tree

---
 .../vss2samm/helpers/ttl_builder_helper.py    | 18 ++++++--
 .../vss2samm/helpers/vss_helper.py            | 45 +++++--------------
 2 files changed, 24 insertions(+), 39 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
index d1f6c41..9709de0 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
@@ -641,10 +641,20 @@ def add_instance_entity_properties(
                 # Use usual child path for its name, similar to VSSNode ttl_name
                 child_path_name = child_instance["path"].replace(".", "")
 
-            # Add node instance as property node with characteristic of its main - parent VSSNode
-            # NOTE: at this point each instance property node will be linked to the VSS defined node (characteristic)
-            # FOR EXAMPLE: Door.Row1.DriverSide instance will have a DoorCharacteristic node as defined in VSS.
-            child_uri = add_node_instance_property(graph, child_path_name, characteristic_uri)
+            if child_instance["children"]:
+                # The child has instances itself, which are the properties of its own entity
+                child_char_uri, child_entity_uri = add_node_instance_characteristic_with_entity(
+                    graph, str_to_uc_first_camel_case(child_path_name)
+                )
+                child_uri = add_node_instance_property(graph, child_path_name, child_char_uri)
+                add_instance_entity_properties(
+                    graph, child_instance["children"], child_path_name, characteristic_uri, child_entity_uri
+                )
+            else:
+                # Add node instance as property node with characteristic of its main - parent VSSNode
+                # NOTE: at this point each instance property node will be linked to the VSS defined node
+                # FOR EXAMPLE: Door.Row1.DriverSide instance will have a DoorCharacteristic node as defined in VSS.
+                child_uri = add_node_instance_property(graph, child_path_name, characteristic_uri)
 
             # Instance child properties should be optional and with payloadName without its parent prefix.
             # For more details check function: add_node_properties
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index 5220068..85b8029 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -7,14 +7,13 @@
 # SPDX-License-Identifier: MPL-2.0
 
 import re
-from ast import literal_eval
 from typing import Any
 
 from rdflib import URIRef
 from vss_tools import log
 from vss_tools.vspec.datatypes import Datatypes
 from vss_tools.vspec.model import NodeType, VSSDataBranch
-from vss_tools.vspec.tree import VSSNode
+from vss_tools.vspec.tree import VSSNode, expand_string
 
 from .data_types_and_units import DataTypes, DataUnits
 from .samm_concepts import SammCConcepts, SammConcepts
@@ -289,39 +288,16 @@ def get_instances_dict_tree(vss_node_instances: list | None, node_instance_name:
 
 
 def parse_instance(instance_to_parse: str | Any) -> str | list[str] | Any:
-    parsed_instance = None
+    # Instances can be set as a range, also within a list
+    # EXAMPLE: Row[1,4] - i.e. rows from 1st to 4th or: Row1, Row2, Row3, Row4
+    if type(instance_to_parse) is str:
+        names = expand_string(instance_to_parse)
+        return names if names != [instance_to_parse] else instance_to_parse
 
-    if type(instance_to_parse) is str and instance_to_parse.__contains__("[") and instance_to_parse.endswith("]"):
-        # More likely, current instance is in the form: "Row[1,2]" or Row[1,4] or "SomeOtherName[x,y]"
-        # Example: Row[1, 2] or Row[1, 4]
-        parsed_instance = []
+    if type(instance_to_parse) is list:
+        return [name for instance in instance_to_parse for name in expand_string(str(instance))]
 
-        # Take the name of this instance
-        instance_parts = instance_to_parse.split("[")
-        instance_name = instance_parts[0]
-        instance_entries = literal_eval("[" + instance_parts[1])
-
-        if (
-            len(instance_entries) == 2
-            and instance_entries[0] == 1
-            and sum(float(entry).is_integer() for entry in instance_entries) == 2
-        ):
-            # Here instances are set as a range, starting with 1 up to some other number
-            # EXAMPLE: Row[1,4] - i.e. rows from 1st to 4th or: Row1, Row2, Row3, Row4
-            start = instance_entries[0]
-            end = instance_entries[1]
-
-            while start <= end:
-                parsed_instance.append(f"{instance_name}{start}")
-                start += 1
-
-        else:
-            for instance_entry in instance_entries:
-                parsed_instance.append(f"{instance_name}{instance_entry}")
-    else:
-        parsed_instance = instance_to_parse  # type: ignore
-
-    return parsed_instance
+    return instance_to_parse
 
 
 # Helper function, which builds an instance object dict for specified instance_name,
@@ -383,8 +359,7 @@ def add_instance_to_dict_tree(parent_dict_tree: dict[str, Any], instance_to_add,
         if type(parent_dict_tree) is dict and parent_dict_tree["children"] and len(parent_dict_tree["children"]) > 0:
             # Add each entry in instance_to_add as a child of the parent_tree["children"]
             for inst_dict in parent_dict_tree["children"]:
-                for entry in instance_to_add:
-                    add_instance_to_dict_tree(inst_dict, entry, instance_type)
+                add_instance_to_dict_tree(inst_dict, instance_to_add, instance_type)
 
         else:
             # Add each entry in instance_to_add as sibling in current parent_tree
-- 
2.43.0


From c64ed39fb23a5654ab3d19b2dc466a7ae8ce1e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 47/57] fix: samm export selects signals by complete path
 elements

---
 .../vspec/vssexporters/vss2samm/helpers/vss_helper.py        | 5 +++--
 src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py        | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index 85b8029..e0af9e9 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -171,8 +171,9 @@ def is_vss_node_selected_for_processing(selected_signals_paths: list[str], vss_n
     #           Vehicle.Cabin.Door.Window.Position
 
     for selected_signal_path in selected_signals_paths:
-        node_is_selected = selected_signal_path.startswith(vss_node_path) or vss_node_path.startswith(
-            selected_signal_path
+        # Compare complete path elements: Vehicle.Speed does not select Vehicle.SpeedLimit
+        node_is_selected = f"{selected_signal_path}.".startswith(f"{vss_node_path}.") or f"{vss_node_path}.".startswith(
+            f"{selected_signal_path}."
         )
 
         if node_is_selected:
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
index 2e30230..24d3f98 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
@@ -206,7 +206,7 @@ def cli(
         log.info("Using signals from:\n    '%s'\n", signals_file)
 
         with open(signals_file, "r") as f:
-            included_signals_input = f.read().splitlines()
+            included_signals_input = [line.strip() for line in f.read().splitlines() if line.strip()]
 
     else:
         log.info("No signals selected.\nCreating model for the whole VSS tree.\n")
-- 
2.43.0


From 85f8febc403bcd3a114c325f6bf2b3caee303f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:02 +0000
Subject: [PATCH 48/57] fix: samm export does not handle empty branches as
 leafs

---
 src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
index 7d1791d..77888c9 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
@@ -114,7 +114,7 @@ def handle_vss_node(path_to_ttl: Path, graph: Graph, vss_node: VSSNode, is_aspec
 
         handle_branch_node(path_to_ttl, graph, vss_node, split_vss, node_uri, node_char_uri)
 
-    if vss_node.is_leaf:
+    else:
         ttl_builder.add_node_leaf(graph, node_uri, vss_node)
 
     return node_uri
-- 
2.43.0


From 9502fb845e2ad1ef165b20b9892cdeff8f51d212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:09 +0000
Subject: [PATCH 49/57] fix: samm export writes no lists as literals of default
 values

---
 .../vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py | 2 +-
 .../vspec/vssexporters/vss2samm/helpers/vss_helper.py         | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
index 9709de0..192dca0 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
@@ -197,7 +197,7 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
                 # Handle ENUM type nodes
                 log.debug("  -- set node ENUM values")
 
-                if vss_node.data.default is not None:  # type: ignore
+                if rdf_type == SammCConcepts.STATE:
                     __add_node_tuple(
                         graph,
                         node_char_uri,
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index e0af9e9..ed58312 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -398,7 +398,9 @@ def get_node_rdf_type(vss_node: VSSNode) -> SammConcepts | SammCConcepts:
     if hasattr(vss_node.data, "allowed") and vss_node.data.allowed and type(vss_node.data.allowed) is list:
         # NOTE: ENUM does not have defaultValue
         #       Instead defaultValue is part of STATE characteristic which inherits from ENUM
-        return SammCConcepts.ENUM if vss_node.data.default is None else SammCConcepts.STATE  # type: ignore
+        #       The default of an array is a list, which is not a valid value of a literal
+        default = vss_node.data.default  # type: ignore
+        return SammCConcepts.ENUM if default is None or isinstance(default, list) else SammCConcepts.STATE  # type: ignore
 
     elif hasattr(vss_node.data, "datatype") and vss_node.data.datatype and vss_node.data.datatype.endswith("[]"):
         return SammCConcepts.LIST
-- 
2.43.0


From 099be598bef1f2ea0ddefcf82da8ada1210c7073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:52 +0000
Subject: [PATCH 50/57] fix: tree export shows the type of nodes as in the
 model

---
 src/vss_tools/vspec/vssexporters/vss2tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2tree.py b/src/vss_tools/vspec/vssexporters/vss2tree.py
index 02ceb3f..9cd0cae 100644
--- a/src/vss_tools/vspec/vssexporters/vss2tree.py
+++ b/src/vss_tools/vspec/vssexporters/vss2tree.py
@@ -6,6 +6,7 @@
 #
 # SPDX-License-Identifier: MPL-2.0
 
+from enum import Enum
 from pathlib import Path
 
 import rich_click as click
@@ -25,6 +26,8 @@ def get_rendered_tree(tree: VSSNode, attributes: tuple[str]) -> str:
             content = getattr(node.data, attribute, None)
             if content is None:
                 continue
+            if isinstance(content, Enum):
+                content = content.value
             if isinstance(content, str):
                 tree_content_lines.append("%s%s='%s'" % (fill, attribute, content))
             else:
-- 
2.43.0


From 31a7c4a28c9afa60aedd6a7119c6cd6561cff698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 51/57] fix: extended attributes of a node always come in the
 same order

---
 src/vss_tools/vspec/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index 4fa81b5..fbf6624 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -79,7 +79,7 @@ class VSSRaw(BaseModel):
     def get_extra_attributes(self) -> list[str]:
         defined_fields = self.model_fields.keys()
         additional_fields = set(self.model_dump().keys()) - set(defined_fields)
-        return list(additional_fields)
+        return sorted(additional_fields)
 
     def as_dict(
         self,
-- 
2.43.0


From 3e23220d00e70af8f2c895f0a4be263efc0927ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 52/57] fix: '#include' in a text of several lines is no
 include statement

---
 src/vss_tools/vspec/vspec.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vspec.py b/src/vss_tools/vspec/vspec.py
index a36ef8c..d2694c5 100644
--- a/src/vss_tools/vspec/vspec.py
+++ b/src/vss_tools/vspec/vspec.py
@@ -65,6 +65,22 @@ def deep_update(base: dict[str, Any], update: dict[str, Any]) -> None:
             base[key] = value
 
 
+def get_include_statements(content: str) -> list[str]:
+    """
+    Returns the include statements, i.e. the lines starting with "#include"
+    that are not part of a text spanning several lines
+    """
+    lines = [line.strip() for line in content.splitlines()]
+    includes = {i: line for i, line in enumerate(lines) if line.startswith("#include")}
+    if includes:
+        for event in yaml.parse(content, Loader=yaml.SafeLoader):
+            if isinstance(event, yaml.ScalarEvent):
+                end = event.end_mark.line + (1 if event.end_mark.column else 0)
+                for i in range(event.start_mark.line + 1, end):
+                    includes.pop(i, None)
+    return list(includes.values())
+
+
 class VSpec:
     def __init__(
         self,
@@ -87,8 +103,7 @@ class VSpec:
                 tmp_data[new_key] = v
             self.data = tmp_data
 
-        lines = content.splitlines()
-        include_statements = [line.strip() for line in lines if line.strip().startswith("#include")]
+        include_statements = get_include_statements(content)
         self.includes = [Include(statement, prefix) for statement in include_statements]
 
     def __str__(self) -> str:
-- 
2.43.0


From 5b51b29bd1e86d7a6e19827af184b88704de3430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 53/57] fix: instances of the same name below one branch are
 rejected

They gave several nodes of the same path, some without their children.
---
 src/vss_tools/vspec/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index 4f2572f..58542ba 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -434,6 +434,8 @@ def expand_instance(
     log.debug(f"Requested instance names: {names}")
     for name in names:
         for root in roots:
+            if any(child.name == name for child in root.children):
+                raise InvalidExpansionEntryException(f"Instance '{root.get_fqn()}{SEPARATOR}{name}' is not unique")
             # Need to copy the template so that we
             # are not messing with the same node
             node = template.copy()
-- 
2.43.0


From 09879469713c280f66dbe71c88d83efdd0c7d9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 54/57] fix: jsonschema export writes extended attributes of
 any type

Dates, for instance, made it fail with a truncated file as output.
---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index d1a733b..09c17d0 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -124,9 +124,10 @@ def export_node(
         if print_uuid:
             json_dict[node.name]["x-uuid"] = node.uuid
 
+    values = data.model_dump(mode="json", include=set(data.get_extra_attributes()))
     for field in data.get_extra_attributes():
         if all_extended_attributes or field in extended_attributes:
-            json_dict[node.name][field] = getattr(data, field)
+            json_dict[node.name][field] = values[field]
 
     # Generate child nodes
     if isinstance(data, VSSDataBranch) or isinstance(node.data, VSSDataStruct):
-- 
2.43.0


From 2afdf6881600c66b889fa70ff1a2900364f455a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 55/57] fix: sets in extended attributes are exported in the
 order of the file

The order of a Python set is another one in every run.
---
 src/vss_tools/vspec/vspec.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vspec.py b/src/vss_tools/vspec/vspec.py
index d2694c5..3510b5e 100644
--- a/src/vss_tools/vspec/vspec.py
+++ b/src/vss_tools/vspec/vspec.py
@@ -81,6 +81,17 @@ def get_include_statements(content: str) -> list[str]:
     return list(includes.values())
 
 
+class VSpecLoader(yaml.SafeLoader):
+    """
+    Loads sets as lists, as the order of a set is another one in every run
+    """
+
+
+VSpecLoader.add_constructor(
+    "tag:yaml.org,2002:set", lambda loader, node: list(loader.construct_mapping(node, deep=True))
+)
+
+
 class VSpec:
     def __init__(
         self,
@@ -92,7 +103,7 @@ class VSpec:
 
         content = source.read_text()
 
-        self.data = yaml.safe_load(content)
+        self.data = yaml.load(content, Loader=VSpecLoader)
         if self.data is None:
             self.data = {}
 
-- 
2.43.0


From 3478dabce217d04ecb6c870b87ecbd7245fa0df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 56/57] fix: files are read and written as UTF-8 in every
 locale

---
 src/vss_tools/vspec/units_quantities.py                       | 2 +-
 src/vss_tools/vspec/vspec.py                                  | 2 +-
 src/vss_tools/vspec/vssexporters/vss2apigear.py               | 2 +-
 src/vss_tools/vspec/vssexporters/vss2csv.py                   | 2 +-
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py                | 2 +-
 src/vss_tools/vspec/vssexporters/vss2franca.py                | 2 +-
 src/vss_tools/vspec/vssexporters/vss2go.py                    | 2 +-
 src/vss_tools/vspec/vssexporters/vss2graphql.py               | 2 +-
 src/vss_tools/vspec/vssexporters/vss2id.py                    | 2 +-
 src/vss_tools/vspec/vssexporters/vss2json.py                  | 4 ++--
 src/vss_tools/vspec/vssexporters/vss2protobuf.py              | 4 ++--
 .../vspec/vssexporters/vss2samm/helpers/file_helper.py        | 2 +-
 src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py         | 2 +-
 src/vss_tools/vspec/vssexporters/vss2tree.py                  | 2 +-
 src/vss_tools/vspec/vssexporters/vss2yaml.py                  | 2 +-
 15 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/vss_tools/vspec/units_quantities.py b/src/vss_tools/vspec/units_quantities.py
index 9f707ec..418db88 100644
--- a/src/vss_tools/vspec/units_quantities.py
+++ b/src/vss_tools/vspec/units_quantities.py
@@ -27,7 +27,7 @@ def load_units_or_quantities(
 ) -> dict[str, VSSUnit | VSSQuantity]:
     data = {}
     for file in files:
-        content = yaml.safe_load(file.read_text())
+        content = yaml.safe_load(file.read_text(encoding="utf-8"))
         if not content:
             log.warning(f"{file}, empty")
             continue
diff --git a/src/vss_tools/vspec/vspec.py b/src/vss_tools/vspec/vspec.py
index 3510b5e..5618774 100644
--- a/src/vss_tools/vspec/vspec.py
+++ b/src/vss_tools/vspec/vspec.py
@@ -101,7 +101,7 @@ class VSpec:
         self.source = source
         self.prefix = prefix
 
-        content = source.read_text()
+        content = source.read_text(encoding="utf-8")
 
         self.data = yaml.load(content, Loader=VSpecLoader)
         if self.data is None:
diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index 5567ea7..87cbbff 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -400,7 +400,7 @@ def generate_solution(directory: Path, module_filename: str, module_name: str,
 
 
 def export_yaml(file_name, content_dict):
-    with open(file_name, "w") as f:
+    with open(file_name, "w", encoding="utf-8") as f:
         yaml.dump(
             content_dict,
             f,
diff --git a/src/vss_tools/vspec/vssexporters/vss2csv.py b/src/vss_tools/vspec/vssexporters/vss2csv.py
index 1b916e8..f7cdb67 100644
--- a/src/vss_tools/vspec/vssexporters/vss2csv.py
+++ b/src/vss_tools/vspec/vssexporters/vss2csv.py
@@ -68,7 +68,7 @@ def add_rows(rows: list[list[Any]], root: VSSNode, with_uuid: bool, with_instanc
 
 
 def write_csv(rows: list[list[Any]], output: Path):
-    with open(output, "w", newline="") as f:
+    with open(output, "w", newline="", encoding="utf-8") as f:
         writer = csv.writer(f)
         writer.writerows(rows)
 
diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 173d0b3..059cedd 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -440,7 +440,7 @@ def cli(
         types_idl = StructExporter().export(datatype_tree)
     export_node(tree, uuid, all_idl_features)
 
-    with open(output, "w") as idl_out:
+    with open(output, "w", encoding="utf-8") as idl_out:
         idl_out.write(types_idl)
         idl_out.write("\n".join(idl_file_buffer))
     log.info(f"IDL file generated at location : {output}")
diff --git a/src/vss_tools/vspec/vssexporters/vss2franca.py b/src/vss_tools/vspec/vssexporters/vss2franca.py
index 34f85a3..fee0a9b 100644
--- a/src/vss_tools/vspec/vssexporters/vss2franca.py
+++ b/src/vss_tools/vspec/vssexporters/vss2franca.py
@@ -127,7 +127,7 @@ def cli(
         units=units,
         overlays=overlays,
     )
-    with open(output, "w") as f:
+    with open(output, "w", encoding="utf-8") as f:
         print_franca_header(f, franca_vss_version)
         print_franca_content(f, tree, uuid)
         f.write("\n]")
diff --git a/src/vss_tools/vspec/vssexporters/vss2go.py b/src/vss_tools/vspec/vssexporters/vss2go.py
index 56f9e14..0aa1c40 100644
--- a/src/vss_tools/vspec/vssexporters/vss2go.py
+++ b/src/vss_tools/vspec/vssexporters/vss2go.py
@@ -334,7 +334,7 @@ def cli(
             else:
                 rounds += 1
 
-    with open(output, "w") as f:
+    with open(output, "w", encoding="utf-8") as f:
         f.write(f"package {package}\n\n")
         for struct in structs.values():
             f.write(str(struct))
diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index d2f0e74..7355331 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -183,6 +183,6 @@ def cli(
     for field in gql_fields:
         gqlfields.append(field.split(","))
     schema = get_schema_from_tree(tree, gqlfields)
-    with open(output, "w") as outfile:
+    with open(output, "w", encoding="utf-8") as outfile:
         outfile.write(schema)
         outfile.write("\n")
diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index 2e955ff..1dab155 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -216,5 +216,5 @@ def cli(
         vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, case_sensitive)
 
     if not validate_only:
-        with open(output, "w") as f:
+        with open(output, "w", encoding="utf-8") as f:
             yaml.dump(signals_yaml_dict, f)
diff --git a/src/vss_tools/vspec/vssexporters/vss2json.py b/src/vss_tools/vspec/vssexporters/vss2json.py
index d3eaab3..38bdb7d 100644
--- a/src/vss_tools/vspec/vssexporters/vss2json.py
+++ b/src/vss_tools/vspec/vssexporters/vss2json.py
@@ -95,8 +95,8 @@ def cli(
             log.info("Adding custom data types to signal dictionary")
             signals_data["ComplexDataTypes"] = types_data
         else:
-            with open(types_output, "w") as f:
+            with open(types_output, "w", encoding="utf-8") as f:
                 json.dump(types_data, f, indent=indent, sort_keys=True)
 
-    with open(output, "w") as f:
+    with open(output, "w", encoding="utf-8") as f:
         json.dump(signals_data, f, indent=indent, sort_keys=True)
diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 696ea4e..3971dcc 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -240,10 +240,10 @@ def cli(
 
     for path, content in files.items():
         path.parent.mkdir(parents=True, exist_ok=True)
-        with open(path, "w") as f:
+        with open(path, "w", encoding="utf-8") as f:
             log.info(f"Writing to: {path}")
             f.write(content.getvalue())
 
-    with open(output, "w") as f:
+    with open(output, "w", encoding="utf-8") as f:
         log.info(f"Writing to: {output}")
         f.write(signals.getvalue())
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
index 3a9bc2b..137acfc 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
@@ -42,7 +42,7 @@ def write_graph_to_file(path_to_file: Path, file_name: str, graph: Graph):
 
     # Create and write data to ttl file
     output_file: Path = output_folder / f"{file_name}.ttl"
-    file_writer = output_file.open("w")
+    file_writer = output_file.open("w", encoding="utf-8")
     file_writer.write(filedata)
 
     # Add new line and close the file
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
index 24d3f98..868e5fa 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
@@ -205,7 +205,7 @@ def cli(
     if signals_file:
         log.info("Using signals from:\n    '%s'\n", signals_file)
 
-        with open(signals_file, "r") as f:
+        with open(signals_file, "r", encoding="utf-8") as f:
             included_signals_input = [line.strip() for line in f.read().splitlines() if line.strip()]
 
     else:
diff --git a/src/vss_tools/vspec/vssexporters/vss2tree.py b/src/vss_tools/vspec/vssexporters/vss2tree.py
index 9cd0cae..32f6179 100644
--- a/src/vss_tools/vspec/vssexporters/vss2tree.py
+++ b/src/vss_tools/vspec/vssexporters/vss2tree.py
@@ -87,7 +87,7 @@ def cli(
 
     if output:
         log.info(f"Writing tree to: {output.absolute()}")
-        with open(output, "w") as f:
+        with open(output, "w", encoding="utf-8") as f:
             f.write(rendered_tree)
     else:
         log.info(rendered_tree)
diff --git a/src/vss_tools/vspec/vssexporters/vss2yaml.py b/src/vss_tools/vspec/vssexporters/vss2yaml.py
index 608cdb4..758d0cb 100644
--- a/src/vss_tools/vspec/vssexporters/vss2yaml.py
+++ b/src/vss_tools/vspec/vssexporters/vss2yaml.py
@@ -22,7 +22,7 @@ from vss_tools.vspec.main import get_trees
 
 
 def export_yaml(file_name, content_dict):
-    with open(file_name, "w") as f:
+    with open(file_name, "w", encoding="utf-8") as f:
         yaml.dump(
             content_dict,
             f,
-- 
2.43.0


From 3c8b8f6480001051e47c1f42defe8170a3c24da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 57/57] fix: texts that are not valid Unicode are rejected when
 they are read

---
 src/vss_tools/vspec/vspec.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vspec.py b/src/vss_tools/vspec/vspec.py
index 5618774..d879920 100644
--- a/src/vss_tools/vspec/vspec.py
+++ b/src/vss_tools/vspec/vspec.py
@@ -83,9 +83,18 @@ def get_include_statements(content: str) -> list[str]:
 
 class VSpecLoader(yaml.SafeLoader):
     """
-    Loads sets as lists, as the order of a set is another one in every run
+    Loads sets as lists, as the order of a set is another one in every run,
+    and no texts that are not valid Unicode, as they cannot be written to any file
     """
 
+    def construct_scalar(self, node: yaml.Node) -> Any:
+        value = super().construct_scalar(node)
+        try:
+            value.encode("utf-8")
+        except UnicodeEncodeError as e:
+            raise yaml.constructor.ConstructorError(None, None, f"invalid text ({e})", node.start_mark) from None
+        return value
+
 
 VSpecLoader.add_constructor(
     "tag:yaml.org,2002:set", lambda loader, node: list(loader.construct_mapping(node, deep=True))
-- 
2.43.0

