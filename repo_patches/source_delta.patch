From 6aa42eebfb868c7c6021ac6ddbcf7c6f1e88226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:31 +0000
Subject: [PATCH 01/15] fix: do not renumber enumerations whose explicit
 positions add up to zero

---
 asn1_parser/asn1/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index c3bdd7c..10fb18b 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -270,7 +270,7 @@ def check_comment(model: Asn1Comment) -> None:
 
 def check_enumerated(model: Enumerated) -> None:
     pos_sum = sum([e.get_pos() for e in model.get_enum()])
-    if pos_sum == 0:
+    if all(e.get_pos() == 0 for e in model.get_enum()):
         # write position into object, when no positions are given
         pos = 0
         for enum in model.get_enum():
-- 
2.43.0


From 2027e9459cc17e27082ac8dbe8eb00fa64591fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:31 +0000
Subject: [PATCH 02/15] fix: reject circular imports instead of looping forever

---
 asn1_parser/generators/cfs/module_sorter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asn1_parser/generators/cfs/module_sorter.py b/asn1_parser/generators/cfs/module_sorter.py
index 0bf9274..f7a7123 100644
--- a/asn1_parser/generators/cfs/module_sorter.py
+++ b/asn1_parser/generators/cfs/module_sorter.py
@@ -87,6 +87,15 @@ class ModuleSorter:
         ]
         import_names: List[str] = ModuleSorter._get_import_names(module_list)
         while len(module_list):
+            if all(module_name in import_names for module_name in module_names):
+                # pylint: disable=import-outside-toplevel
+                from asn1_parser.asn1.validation.asn1_bundle_validator import (
+                    ASN1ConsistencyError,
+                )
+
+                raise ASN1ConsistencyError(
+                    f"Circular imports between the modules {module_names}"
+                )
             for module_index, module_name in enumerate(module_names):
                 if module_name not in import_names:
                     module_to_reorder = module_list[module_index]
-- 
2.43.0


From 2ca763f3ddc913899bd5c42d7a934059eb9dd4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:31 +0000
Subject: [PATCH 03/15] fix: reject recursive type definitions instead of
 looping forever

---
 asn1_parser/generators/cfs/module_sorter.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn1_parser/generators/cfs/module_sorter.py b/asn1_parser/generators/cfs/module_sorter.py
index f7a7123..144938c 100644
--- a/asn1_parser/generators/cfs/module_sorter.py
+++ b/asn1_parser/generators/cfs/module_sorter.py
@@ -40,6 +40,7 @@ class ModuleSorter:
             Definitions
         ] = asn1_module.get_definitions().copy()
         while len(not_yet_defined) > 0:
+            number_of_remaining: int = len(not_yet_defined)
             # copy(): do not modify something we iterate on
             for definition in not_yet_defined.copy():
                 if isinstance(definition, (Sequence, Choice)):
@@ -73,6 +74,17 @@ class ModuleSorter:
                     raise NotImplementedError(
                         f"{definition} (of type {type(definition)})"
                     )
+            if len(not_yet_defined) == number_of_remaining:
+                # pylint: disable=import-outside-toplevel
+                from asn1_parser.asn1.validation.asn1_bundle_validator import (
+                    ASN1ConsistencyError,
+                )
+
+                names = [d.get_type_name() for d in not_yet_defined]
+                raise ASN1ConsistencyError(
+                    f"The types {names} depend on each other or on undefined "
+                    f"types"
+                )
 
         return already_defined
 
-- 
2.43.0


From 6cbc5f66e5f3220db7fdc4a224d453b01756fd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:31 +0000
Subject: [PATCH 04/15] fix: include the generated header of imported modules
 in C and binary output

---
 asn1_parser/generators/binary/generator.py | 2 +-
 asn1_parser/generators/c/generator.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 969e740..23b153c 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -107,7 +107,7 @@ class BinaryGenerator(Generator):
                 module_cdata.add_include(
                     str(
                         cgen.Include(
-                            cls.get_filename(module_imported_item),
+                            cls.get_filename(module_imported_item) + ".h",
                             system=False,
                         )
                     )
diff --git a/asn1_parser/generators/c/generator.py b/asn1_parser/generators/c/generator.py
index 74ed97d..7472726 100644
--- a/asn1_parser/generators/c/generator.py
+++ b/asn1_parser/generators/c/generator.py
@@ -62,7 +62,7 @@ class CGenerator(Generator):
                 module_cdata.add_include(
                     str(
                         cgen.Include(
-                            cls.get_filename(module_imported_item),
+                            cls.get_filename(module_imported_item) + ".h",
                             system=False,
                         )
                     )
-- 
2.43.0


From fef367e0b4e9eddf10a5ab06924f4558c27b86f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:31 +0000
Subject: [PATCH 05/15] fix: keep the include of the generated C file when a
 later definition has no values

---
 asn1_parser/c_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/c_data.py b/asn1_parser/c_data.py
index be0cfb7..b3ebcf3 100644
--- a/asn1_parser/c_data.py
+++ b/asn1_parser/c_data.py
@@ -80,7 +80,8 @@ class CData:
         self._init_list.extend(other_cdata.get_init_list())
         self._init_list_predef.extend(other_cdata.get_init_list_predef())
         # TODO one init_include per file?
-        self.set_init_include(other_cdata.get_init_include())
+        if other_cdata.get_init_include():
+            self.set_init_include(other_cdata.get_init_include())
         self.set_stdbool_if_needed(other_cdata.is_stdbool_needed())
         self.set_stdint_if_needed(other_cdata.is_stdint_needed())
         # TODO prevent overriding existing keys
-- 
2.43.0


From 89da506b8087d1c455742892d5a48d2ac057299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:31 +0000
Subject: [PATCH 06/15] fix: keep the binary values of every WITH COMPONENTS of
 a sequence

---
 asn1_parser/c_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/c_data.py b/asn1_parser/c_data.py
index b3ebcf3..fbef309 100644
--- a/asn1_parser/c_data.py
+++ b/asn1_parser/c_data.py
@@ -84,8 +84,8 @@ class CData:
             self.set_init_include(other_cdata.get_init_include())
         self.set_stdbool_if_needed(other_cdata.is_stdbool_needed())
         self.set_stdint_if_needed(other_cdata.is_stdint_needed())
-        # TODO prevent overriding existing keys
-        self._binary_init.update(other_cdata.get_binary_init())
+        for key, binary_init_list in other_cdata.get_binary_init().items():
+            self._binary_init.setdefault(key, []).extend(binary_init_list)
 
     def add_data(self, data_string: str) -> None:
         self._data.append(data_string)
-- 
2.43.0


From 9702b28591a6027746dff77fc799e39c70bf5545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:31 +0000
Subject: [PATCH 07/15] fix: write each member of a CHOICE on its own line

---
 asn1_parser/generators/generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 6573cd1..f50227d 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -303,6 +303,7 @@ class Generator:
                 + CPrinter.asn1_to_c_style_naming(choice_item.get_key())
                 + ";"
                 + choice_comment
+                + "\n"
             )
         data_str += (
             "} "
-- 
2.43.0


From f0c17412718a9f8bba9a99611067e874c69baf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:31 +0000
Subject: [PATCH 08/15] fix: map signed integers to the stdint type of their
 size

---
 asn1_parser/generators/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index f50227d..02501f3 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -67,7 +67,7 @@ class Generator:
                 next_bit_size = next_bit_size + 1
                 mod = math.log(next_bit_size, 2)
             valid_c_type = c_type.value.lower()
-            if valid_c_type == "uint":
+            if valid_c_type in ["uint", "int"]:
                 if (
                     valid_c_type + str(next_bit_size) + "_t"
                 ) in cls._POSIX_DEFINED_TYPES:
-- 
2.43.0


From bba9c26d4e002e3c818dbcbc92792218af2e4e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:31 +0000
Subject: [PATCH 09/15] fix: map simple definitions of BOOLEAN to a 1 bit
 bitfield like BOOLEAN itself

---
 asn1_parser/generators/generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 02501f3..d8231f1 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -42,8 +42,9 @@ class Generator:
         is_stdbool_needed = False
         is_stdint_needed = False
 
-        if valid_c_type in ["INTEGER", "REAL"] or isinstance(
-            definition, SimpleDefinition
+        if valid_c_type in ["INTEGER", "REAL"] or (
+            isinstance(definition, SimpleDefinition)
+            and valid_c_type != "BOOLEAN"
         ):
             c_type: Optional[TypeEnum] = definition.get_asn_type().get_c_type()
             if c_type is None:
-- 
2.43.0


From d4838b4714ea64eb3269317357cd278e6bdbc585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:31 +0000
Subject: [PATCH 10/15] fix: do not make COSMOS booleans without a value an
 identification item

---
 asn1_parser/generators/cosmos/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/templates.py b/asn1_parser/generators/cosmos/templates.py
index 7164131..3463b45 100644
--- a/asn1_parser/generators/cosmos/templates.py
+++ b/asn1_parser/generators/cosmos/templates.py
@@ -62,7 +62,7 @@ def cosmos_telemetry(
             cos_type = "UINT"
             if specific_value == "True":
                 specific_value = "1"
-            else:
+            elif specific_value == "False":
                 specific_value = "0"
         elif cosmos_type == TypeEnum.A_DOUBLE:
             # change c_double to FLOAT
-- 
2.43.0


From dac50191d1cdcfc7e01a7156c394b7cde8ed62c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:31 +0000
Subject: [PATCH 11/15] fix: do not modify the model when generating COSMOS
 packets

---
 asn1_parser/generators/cosmos/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 9a25552..73a9a9b 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -131,7 +131,7 @@ class COSMOSGenerator:
                 with_components: WithComponents = seq_item.get_with_components()
                 components_list: List[ComponentsItem] = []
                 if with_components:
-                    components_list = with_components.get_components()
+                    components_list = with_components.get_components().copy()
                 specific_value: str = ""
                 # go through WITH COMPONENTS
                 if with_comp:
-- 
2.43.0


From 3d1d3a84d454021c1d5485ad3bda2624b77bee12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:31 +0000
Subject: [PATCH 12/15] fix: accept an application process identifier without a
 fixed value

---
 asn1_parser/generators/cosmos/generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 73a9a9b..4eeaa30 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -217,7 +217,10 @@ class COSMOSGenerator:
                 is_array = isinstance(seq_type, Array)
                 if is_array:
                     specific_value = str(seq_type.get_length() * bitsize)
-                elif seq_item.get_key() == ASN1_KEY_CCSDS_APID:
+                elif (
+                    seq_item.get_key() == ASN1_KEY_CCSDS_APID
+                    and specific_value != ""
+                ):
                     specific_value = f"0x{specific_value:02X}"
                 else:
                     specific_value = str(specific_value)
-- 
2.43.0


From de1df0627e0c9f702e2b548b1c136812cb9e2e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:31 +0000
Subject: [PATCH 13/15] fix: reject unsigned integers over 64 bits and avoid
 fields of zero bits

---
 asn1_parser/asn1/grammar_elements/enumerated.py | 3 ++-
 asn1_parser/utils/size.py                       | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/asn1/grammar_elements/enumerated.py b/asn1_parser/asn1/grammar_elements/enumerated.py
index 2490546..17db00b 100644
--- a/asn1_parser/asn1/grammar_elements/enumerated.py
+++ b/asn1_parser/asn1/grammar_elements/enumerated.py
@@ -37,4 +37,5 @@ class Enumerated(Definitions):
         """
         values = [e.get_pos() for e in self.get_enum()]
         last_value = max(values)
-        return last_value.bit_length()  # int.bit_length() is a Python builtin
+        # int.bit_length() is a Python builtin, a field has at least one bit
+        return max(last_value.bit_length(), 1)
diff --git a/asn1_parser/utils/size.py b/asn1_parser/utils/size.py
index e1ad03c..eba46a9 100644
--- a/asn1_parser/utils/size.py
+++ b/asn1_parser/utils/size.py
@@ -40,7 +40,10 @@ def get_bit_size(
         bitsize = 1
     elif c_type is TypeEnum.A_UINT:
         assert isinstance(end, int), f"Expected int, got {type(end)} ({end})"
-        bitsize = end.bit_length()  # int.bit_length() is a Python builtin
+        # int.bit_length() is a Python builtin, a field has at least one bit
+        bitsize = max(end.bit_length(), 1)
+        if bitsize > 64:
+            raise ValueError(f"{end} is out of stdint definition.")
     elif c_type is TypeEnum.A_INT:
         assert isinstance(
             begin, int
-- 
2.43.0


From d9d62afcdb454ee9e8c1125155825a911e9b1d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:13 +0000
Subject: [PATCH 14/15] fix: take the size of the elements into account for the
 size of an array

---
 asn1_parser/asn1/asn1_bundle_builder.py    | 3 +++
 asn1_parser/asn1/grammar_elements/array.py | 3 +--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/asn1/asn1_bundle_builder.py b/asn1_parser/asn1/asn1_bundle_builder.py
index c1f6c8a..1815128 100644
--- a/asn1_parser/asn1/asn1_bundle_builder.py
+++ b/asn1_parser/asn1/asn1_bundle_builder.py
@@ -2,6 +2,7 @@ from typing import Dict, Tuple, List, Optional, Union, Set
 from collections import Counter
 
 from asn1_parser.asn1.asn1_bundle import ASN1Bundle
+from asn1_parser.asn1.grammar_elements.array import Array
 from asn1_parser.asn1.grammar_elements.choice import Choice
 from asn1_parser.asn1.grammar_elements.enumerated import Enumerated
 from asn1_parser.asn1.grammar_elements.key_type_pair import KeyTypePair
@@ -155,6 +156,8 @@ class ASN1BundleBuilder:
             if isinstance(definition, Sequence):
                 for member in definition.get_children():
                     typ = member.get_asn_type()
+                    while isinstance(typ.get_type(), Array):
+                        typ = typ.get_type().get_asn_type()
                     if typ.get_type() is None:
                         type_def = all_definitions.get(typ.get_type_name())
                         typ.set_type(type_def)
diff --git a/asn1_parser/asn1/grammar_elements/array.py b/asn1_parser/asn1/grammar_elements/array.py
index 716a506..e183afb 100644
--- a/asn1_parser/asn1/grammar_elements/array.py
+++ b/asn1_parser/asn1/grammar_elements/array.py
@@ -19,5 +19,4 @@ class Array:
         return self._asn_type
 
     def get_size_bits(self) -> int:
-        # TODO: check if it has to be multiplied by the length of the type
-        return self.get_length() * 8
+        return self.get_length() * self.get_asn_type().get_size_bits()
-- 
2.43.0


From ef7a61e840c00b6074bc6f114698b89836085b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:12 +0000
Subject: [PATCH 15/15] fix: reject comments that end or continue into the
 generated code

A comment that contains */ ends the C comment it is written into, one that
ends with a backslash swallows the next line (a struct member or an enumerator)
and a double quote ends the description of a COSMOS item.
---
 asn1_parser/asn1/processor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index 10fb18b..0fb9d5f 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -255,7 +255,8 @@ def null_exception_catch(model: Union[KeyTypePair, SimpleDefinition]) -> None:
 
 def check_comment(model: Asn1Comment) -> None:
     assert isinstance(model, Asn1Comment), f"{model}"
-    not_allowed = ["[", "]", "--"]
+    # the last three would end or continue the comment in the generated files
+    not_allowed = ["[", "]", "--", "*/", "\\", '"']
     for sign in not_allowed:
         if not model.get_comment():
             return
-- 
2.43.0

