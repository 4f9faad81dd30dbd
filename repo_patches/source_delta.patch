From 489c7fb84ee56df9a008c70504160a75edc0fcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 01/66] fix: keep entries with unknown ids writable after
 decompiling

The fallback for unknown ids had a parser, but no matching compiler, so a
decompiled entry could not be compiled again and Vfb.write_bytes failed.
---
 src/vfbLib/vfb/entry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 661c515..7c548a3 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -4,7 +4,7 @@ from io import BytesIO
 from struct import pack
 from typing import TYPE_CHECKING
 
-from vfbLib.compilers.base import BaseCompiler
+from vfbLib.compilers.base import BaseCompiler, HexStringCompiler
 from vfbLib.constants import parser_classes
 from vfbLib.enum import F
 from vfbLib.helpers import hexStr, int32_size
@@ -22,6 +22,7 @@ logger = logging.getLogger(__name__)
 
 
 FALLBACK_PARSER = BaseParser
+FALLBACK_COMPILER = HexStringCompiler
 
 
 class VfbEntry(StreamReader):
@@ -143,6 +144,7 @@ class VfbEntry(StreamReader):
                     f"Falling back to parser {FALLBACK_PARSER} for ID {self._id}"
                 )
                 self.parser = FALLBACK_PARSER
+                self.compiler = FALLBACK_COMPILER
             else:
                 self.key, self.parser, self.compiler = entry_info
                 if self.parser is not None:
-- 
2.43.0


From 37adc89742e4b367b334a3e485d864f713e315b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 02/66] fix: compute the entry header from the current data

The header was cached on first access, so an entry that was edited after a
write (or after looking at its header) was written with the old size.
---
 src/vfbLib/vfb/entry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 7c548a3..4466f97 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -1,5 +1,4 @@
 import logging
-from functools import cached_property
 from io import BytesIO
 from struct import pack
 from typing import TYPE_CHECKING
@@ -60,7 +59,7 @@ class VfbEntry(StreamReader):
             f"compiler: {self.compiler}>"
         )
 
-    @cached_property
+    @property
     def header(self) -> bytes:
         """The entry header.
 
-- 
2.43.0


From f63b6bcd51a446f25312067fd7a76b133d0ef44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 03/66] fix: round guide slopes instead of truncating them

---
 src/vfbLib/compilers/guides.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/guides.py b/src/vfbLib/compilers/guides.py
index 4265373..ae85736 100644
--- a/src/vfbLib/compilers/guides.py
+++ b/src/vfbLib/compilers/guides.py
@@ -17,7 +17,9 @@ class GuidesCompiler(BaseCompiler):
             for guide in dir_guides:
                 for master_index in range(self.vfb.num_masters):
                     self.write_value(guide[master_index]["pos"])
-                    angle = int(tan(radians(guide[master_index]["angle"])) * 10000)
+                    angle = round(
+                        tan(radians(guide[master_index]["angle"])) * 10000
+                    )
                     self.write_value(angle)
 
 
-- 
2.43.0


From 46bf36effc10486ce9bc250c1e5edc1d92e4a93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 04/66] fix: round primary instance coordinates instead of
 truncating them

---
 src/vfbLib/compilers/mm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/mm.py b/src/vfbLib/compilers/mm.py
index cfa3611..fae8102 100644
--- a/src/vfbLib/compilers/mm.py
+++ b/src/vfbLib/compilers/mm.py
@@ -42,4 +42,4 @@ class PrimaryInstancesCompiler(BaseCompiler):
             name = instance["name"]
             self.write_str_with_len(name)
             for value in instance["values"]:
-                self.write_value(int(10000 * value))
+                self.write_value(round(10000 * value))
-- 
2.43.0


From a8acda2fef0593832673ff3dbbc56f5f2540503c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 05/66] fix: write anchor properties as the signed values they
 are read as

---
 src/vfbLib/compilers/glyph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index 3ce4376..df9ce46 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -40,8 +40,8 @@ class GlyphAnchorsSuppCompiler(BaseCompiler):
     def _compile(self, data: "list[AnchorPropertiesDict]") -> None:
         self.write_value(len(data), signed=False)
         for anchor in data:
-            self.write_value(anchor.get("hue", 0), signed=False)
-            self.write_value(anchor.get("data", 0), signed=False)
+            self.write_value(anchor.get("hue", 0))
+            self.write_value(anchor.get("data", 0))
 
 
 class GlyphGDEFCompiler(BaseCompiler):
-- 
2.43.0


From ed16497b67262e6dba81cfef0f0677588f2a70b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 06/66] fix: write class flags as the signed values they are
 read as

---
 src/vfbLib/compilers/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index 72c0fa9..fd6cfbc 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -287,8 +287,8 @@ class OpenTypeKerningClassFlagsCompiler(BaseCompiler):
         for name, flags in data.items():
             self.write_str_with_len(name)
             flag1, flag2 = flags
-            self.write_value(flag1, signed=False)
-            self.write_value(flag2, signed=False)
+            self.write_value(flag1)
+            self.write_value(flag2)
 
 
 class OpenTypeMetricsClassFlagsCompiler(BaseCompiler):
@@ -297,6 +297,6 @@ class OpenTypeMetricsClassFlagsCompiler(BaseCompiler):
         for name, flags in data.items():
             self.write_str_with_len(name)
             flag1, flag2, flag3 = flags
-            self.write_value(flag1, signed=False)
-            self.write_value(flag2, signed=False)
-            self.write_value(flag3, signed=False)
+            self.write_value(flag1)
+            self.write_value(flag2)
+            self.write_value(flag3)
-- 
2.43.0


From aa14770e986d1c9a0031433f2872b423c86b5280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 07/66] fix: write negative PCLT stroke weights and width types

---
 src/vfbLib/compilers/pclt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/pclt.py b/src/vfbLib/compilers/pclt.py
index bd037eb..a0e964f 100644
--- a/src/vfbLib/compilers/pclt.py
+++ b/src/vfbLib/compilers/pclt.py
@@ -22,6 +22,6 @@ class PcltCompiler(BaseCompiler):
         for value in data["character_complement"]:
             self.write_uint8(value)
         self.write_str(data["file_name"], 6)
-        self.write_uint8(data["stroke_weight"])
-        self.write_uint8(data["width_type"])
+        self.write_int8(data["stroke_weight"])
+        self.write_int8(data["width_type"])
         self.write_uint8(data["serif_style"])
-- 
2.43.0


From ae394f99f3c723585f3c238b2e881559a1525f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 08/66] fix: write MM kern pairs in the structure they are read
 as

---
 src/vfbLib/compilers/fl3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/fl3.py b/src/vfbLib/compilers/fl3.py
index 5a42ba4..72e651d 100644
--- a/src/vfbLib/compilers/fl3.py
+++ b/src/vfbLib/compilers/fl3.py
@@ -1,4 +1,5 @@
 import logging
+from typing import Any
 
 from vfbLib.compilers.base import BaseCompiler
 
@@ -6,6 +7,8 @@ logger = logging.getLogger(__name__)
 
 
 class MMKernPairCompiler(BaseCompiler):
-    def _compile(self, data: list[int]) -> None:
-        for value in data:
+    def _compile(self, data: dict[str, Any]) -> None:
+        self.write_uint32(data["l"])
+        self.write_uint32(data["r"])
+        for value in data["values"]:
             self.write_int16(value)
-- 
2.43.0


From 08630c78b06ad7829b068e39595374931e0ec842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 09/66] fix: parse the block markers as the hex strings they
 are compiled from

---
 src/vfbLib/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/constants.py b/src/vfbLib/constants.py
index 1281a67..3878e07 100644
--- a/src/vfbLib/constants.py
+++ b/src/vfbLib/constants.py
@@ -150,8 +150,8 @@ parser_classes = {
     F.EncodingDefault: ("Encoding Default", GlyphEncodingParser, GlyphEncodingCompiler),
     F.Encoding: ("Encoding", GlyphEncodingParser, GlyphEncodingCompiler),
     F.MMEncType: ("MM Encoding Type", Int16Parser, Int16Compiler),
-    F.BlockNamesEnd: ("Block Names End", StringParser, HexStringCompiler),
-    F.BlockFontInfoStart: ("Block Font Info Start", StringParser, HexStringCompiler),
+    F.BlockNamesEnd: ("Block Names End", BaseParser, HexStringCompiler),
+    F.BlockFontInfoStart: ("Block Font Info Start", BaseParser, HexStringCompiler),
     F.font_name: ("font_name", StringParser, StringCompiler),
     F.MasterCount: ("Master Count", Int16Parser, Int16Compiler),
     F.weight_vector: ("weight_vector", DoubleListParser, DoubleListCompiler),
-- 
2.43.0


From 4727ca9d7824340db04c09a9bd3640a3951447ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 10/66] fix: read Mac name records with codes outside of
 MacRoman

---
 src/vfbLib/parsers/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index f5c809b..d07e9c9 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -23,7 +23,7 @@ class NameRecordsParser(BaseParser):
                     if platID == 1 and encID == 0:
                         # TODO: Remove default arguments when Python < 3.11 is dropped
                         char = c.to_bytes(length=1, byteorder="big").decode("macroman")
-                except ValueError:
+                except (OverflowError, ValueError):
                     char = "\ufeff"
                 name += char
             result.append((nameID, platID, encID, langID, name))
-- 
2.43.0


From 0abbbae3041b16af351e3c4cfcf7af92d98f8b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 11/66] fix: read OpenType feature code consisting of empty
 lines only

---
 src/vfbLib/parsers/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index d07e9c9..a283ace 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -101,7 +101,7 @@ class OpenTypeStringParser(BaseParser):
 
         if len(lines) > 1:
             # Remove empty lines at the end, except one
-            while not lines[-1]:
+            while lines and not lines[-1]:
                 lines.pop()
         lines.append("")
         return lines
-- 
2.43.0


From 745f394e14fc85025eb83a86445b289a90933580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 12/66] fix: write export options without a name

---
 src/vfbLib/compilers/options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/options.py b/src/vfbLib/compilers/options.py
index 0f6c7cf..cfb3fea 100644
--- a/src/vfbLib/compilers/options.py
+++ b/src/vfbLib/compilers/options.py
@@ -9,9 +9,9 @@ if TYPE_CHECKING:
 
 
 class ExportOptionsCompiler(BaseCompiler):
-    def _compile(self, data: list[str]) -> None:
+    def _compile(self, data: list[str | int]) -> None:
         rev = {v: k for k, v in export_options.items()}
-        options = [rev[k] for k in data]
+        options = [k if isinstance(k, int) else rev[k] for k in data]
         self.write_uint16(intListToBinary(options))
 
 
-- 
2.43.0


From 742f69e83142d486dbd365076e98e70972ceb368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:13 +0000
Subject: [PATCH 13/66] fix: write font options without a name

---
 src/vfbLib/compilers/options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/options.py b/src/vfbLib/compilers/options.py
index cfb3fea..f4078a4 100644
--- a/src/vfbLib/compilers/options.py
+++ b/src/vfbLib/compilers/options.py
@@ -19,8 +19,8 @@ class FontOptionsCompiler(BaseCompiler):
     def _compile(self, data: "FontOptionsDict") -> None:
         rev = {v: k for k, v in font_options.items()}
         for k, v in data.items():
-            raw_key = rev.get(k)
-            assert raw_key is not None
+            # Unknown keys have been read as the string representation of their number
+            raw_key = rev[k] if k in rev else int(k)
             match k:
                 case "auto_hinting_h_ratio" | "auto_hinting_v_ratio":
                     assert isinstance(v, float)
-- 
2.43.0


From 1861a3c39617c6de7fe57ef5d8432f1e7224c2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:23 +0000
Subject: [PATCH 14/66] fix: write unknown mapping modes

---
 src/vfbLib/compilers/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index fd6cfbc..316d4f7 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -270,8 +270,10 @@ mapping_modes = {
 class MappingModeCompiler(BaseCompiler):
     def _compile(self, data: "MappingModeDict") -> None:
         rev_map = {v: k for k, v in mapping_modes.items()}
+        mode = data["mapping_mode"]
         self.write_uint8(1)
-        self.write_value(rev_map[data["mapping_mode"]])
+        # Unknown modes have been read as the string representation of their number
+        self.write_value(rev_map[mode] if mode in rev_map else int(mode))
         self.write_uint8(2)
         self.write_value(data["m2"])
         self.write_uint8(3)
-- 
2.43.0


From 0c27809cb74f8e947b13def568533bda62b58fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 15/66] fix: keep unnamed bits of the autohinting and kern
 expansion options

---
 src/vfbLib/compilers/options.py |  7 ++++---
 src/vfbLib/parsers/options.py   | 11 +++++++++++
 src/vfbLib/typing.py            |  2 ++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/compilers/options.py b/src/vfbLib/compilers/options.py
index f4078a4..520f577 100644
--- a/src/vfbLib/compilers/options.py
+++ b/src/vfbLib/compilers/options.py
@@ -37,7 +37,7 @@ class FontOptionsCompiler(BaseCompiler):
                         "add_link_to_rsb",
                     ):
                         packed += v.get(subkey, 0) * getattr(TTAutoHintOptions, subkey)
-                    v = packed
+                    v = packed + intListToBinary(v.get("other", []))
                 case "expand_kern_flags":
                     assert isinstance(v, dict)
                     packed = 0
@@ -51,10 +51,11 @@ class FontOptionsCompiler(BaseCompiler):
                         "apply_to_assistance",
                     ):
                         packed += v.get(subkey, 0) * getattr(ExpandKernOptions, subkey)
-                    v = packed
+                    v = packed + intListToBinary(v.get("other", []))
                 case _:
                     pass
             self.write_uint8(raw_key)
             assert isinstance(v, int)
-            self.write_value(v)
+            # Bit fields may have bit 31 set
+            self.write_value(v, signed=v < 0x80000000)
         self.write_uint8(0x64)
diff --git a/src/vfbLib/parsers/options.py b/src/vfbLib/parsers/options.py
index e71c851..df69ac0 100644
--- a/src/vfbLib/parsers/options.py
+++ b/src/vfbLib/parsers/options.py
@@ -4,6 +4,13 @@ from vfbLib.parsers.base import BaseParser, EncodedKeyValuesParser
 from vfbLib.typing import ExpandKernFlagsDict, FontOptionsDict, TTAutoHintOptionsDict
 
 
+def unknown_bits(value: int, known: int) -> list[int]:
+    """
+    Return the bits set in the 32-bit `value` that are not part of the `known` bit mask.
+    """
+    return binaryToIntList(value & ~known & 0xFFFFFFFF)
+
+
 class ExportOptionsParser(BaseParser):
     """
     A parser that reads data a bit field representing export options.
@@ -62,6 +69,8 @@ class FontOptionsParser(EncodedKeyValuesParser):
                     ),
                     add_link_to_rsb=int(bool(val & TTAutoHintOptions.add_link_to_rsb)),
                 )
+                if other := unknown_bits(val, sum(TTAutoHintOptions)):
+                    options["autohinting_options"]["other"] = other
 
         if "expand_kern_flags" in options:
             val2 = options["expand_kern_flags"]
@@ -79,5 +88,7 @@ class FontOptionsParser(EncodedKeyValuesParser):
                         bool(val2 & ExpandKernOptions.apply_to_assistance)
                     ),
                 )
+                if other := unknown_bits(val2, sum(ExpandKernOptions)):
+                    options["expand_kern_flags"]["other"] = other
 
         return options
diff --git a/src/vfbLib/typing.py b/src/vfbLib/typing.py
index 89f4072..4e00efc 100644
--- a/src/vfbLib/typing.py
+++ b/src/vfbLib/typing.py
@@ -74,6 +74,7 @@ class ExpandKernFlagsDict(TypedDict):
     limit_count: int
     limit_keep: int
     apply_to_assistance: int
+    other: NotRequired[list[int]]
 
 
 class FeatureDict(TypedDict):
@@ -105,6 +106,7 @@ class TTAutoHintOptionsDict(TypedDict):
     interpolate_positions_of_cusp_points: int
     interpolate_positions_of_double_links: int
     add_link_to_rsb: int
+    other: NotRequired[list[int]]
 
 
 class FontOptionsDict(TypedDict):
-- 
2.43.0


From 5660413e52ec185cf532a160f5f2c1b746a84378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 16/66] fix: keep all bits of the TrueType head flags and
 options

---
 src/vfbLib/compilers/truetype.py | 6 +++++-
 src/vfbLib/parsers/truetype.py   | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/truetype.py b/src/vfbLib/compilers/truetype.py
index d05b29c..8245911 100644
--- a/src/vfbLib/compilers/truetype.py
+++ b/src/vfbLib/compilers/truetype.py
@@ -26,6 +26,10 @@ def convert_flags_options_to_int(data: "TrueTypeInfoDict") -> int:
         for k, v in tt_settings.items():
             if v in options:
                 option_bits.append(k)
+        # Unknown options have been read as the string representation of their bit
+        option_bits.extend(
+            int(v) for v in options if v not in tt_settings.values()
+        )
 
         value += intListToBinary(option_bits) << 16
     return value
@@ -55,7 +59,7 @@ class TrueTypeInfoCompiler(BaseCompiler):
         # Convert combined flags and options dict back to a single int
         head_flags_options = convert_flags_options_to_int(data)
         self.write_uint8(0x39)
-        self.write_value(head_flags_options)
+        self.write_value(head_flags_options, signed=False)
 
         for k in (
             0x3A,
diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index 4d86367..e910688 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -22,7 +22,7 @@ logger = logging.getLogger(__name__)
 
 def convert_int_to_flags_options(value: int) -> "FlagsOptionsDict":
     flags = binaryToIntList(value & 0xFFFF)
-    options = binaryToIntList(value >> 16)
+    options = binaryToIntList(value >> 16 & 0xFFFF)
     return {
         "flags": flags,
         "options": [tt_settings.get(i, str(i)) for i in options],
-- 
2.43.0


From 279706ef65ba841ee558cc1bbb75f575d9c3f3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:28 +0000
Subject: [PATCH 17/66] fix: stop reading when the file ends without an end
 marker

---
 src/vfbLib/vfb/entry.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 4466f97..bc0c762 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -6,7 +6,7 @@ from typing import TYPE_CHECKING
 from vfbLib.compilers.base import BaseCompiler, HexStringCompiler
 from vfbLib.constants import parser_classes
 from vfbLib.enum import F
-from vfbLib.helpers import hexStr, int32_size
+from vfbLib.helpers import hexStr, int16_size, int32_size
 from vfbLib.parsers.base import BaseParser, StreamReader
 from vfbLib.typing import EntryDict
 
@@ -153,7 +153,11 @@ class VfbEntry(StreamReader):
         """
         Read an entry from the stream and return its data size.
         """
-        raw_id = self.read_uint16()
+        raw_bytes = self.stream.read(int16_size)
+        if len(raw_bytes) < int16_size:
+            # The file ends without an end marker
+            raise EOFError
+        raw_id = int.from_bytes(raw_bytes, byteorder="little", signed=False)
         self.id = raw_id & ~0x8000
 
         if raw_id & 0x8000:
-- 
2.43.0


From b9d0b3620eaabcfe45894eadbd01da7e175373f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 18/66] fix: stop parsing TrueType info when the end marker is
 missing

---
 src/vfbLib/parsers/truetype.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index e910688..36ecc89 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -60,7 +60,12 @@ class TrueTypeInfoParser(BaseParser):
     def _parse(self) -> TrueTypeInfoDict:
         info: TrueTypeInfoDict = TrueTypeInfoDict()
 
+        end = self.stream.getbuffer().nbytes
         while True:
+            if self.stream.tell() >= end:
+                # The end marker is missing
+                raise EOFError
+
             k = self.read_uint8()
             bk = ttinfo_names.get(k, f"bit{k}")  # dict key, as a bit number
             dk = ttinfo_names.get(k, str(k))  # dict key, human-readable
-- 
2.43.0


From fb1ad8a28ca384f25117f6f029d655a51ee890df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 19/66] fix: write TrueType info with only some of the keys

---
 src/vfbLib/compilers/truetype.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/vfbLib/compilers/truetype.py b/src/vfbLib/compilers/truetype.py
index 8245911..0f9b326 100644
--- a/src/vfbLib/compilers/truetype.py
+++ b/src/vfbLib/compilers/truetype.py
@@ -53,13 +53,13 @@ class TrueTypeInfoCompiler(BaseCompiler):
 
     def _compile(self, data: "TrueTypeInfoDict") -> None:
         for k in (0x33, 0x34, 0x35, 0x36, 0x37, 0x38):
-            self.write_uint8(k)
-            self.write_value(data[ttinfo_names[k]])
+            self._write_if_exists(k, data)
 
         # Convert combined flags and options dict back to a single int
-        head_flags_options = convert_flags_options_to_int(data)
-        self.write_uint8(0x39)
-        self.write_value(head_flags_options, signed=False)
+        if ttinfo_names[0x39] in data:
+            head_flags_options = convert_flags_options_to_int(data)
+            self.write_uint8(0x39)
+            self.write_value(head_flags_options, signed=False)
 
         for k in (
             0x3A,
@@ -91,11 +91,12 @@ class TrueTypeInfoCompiler(BaseCompiler):
             self._write_if_exists(k, data)
 
         # PANOSE
-        values = data[ttinfo_names[0x4C]]
-        assert len(values) == 10
-        self.write_uint8(0x4C)
-        for value in values:
-            self.write_uint8(value)
+        if ttinfo_names[0x4C] in data:
+            values = data[ttinfo_names[0x4C]]
+            assert len(values) == 10
+            self.write_uint8(0x4C)
+            for value in values:
+                self.write_uint8(value)
 
         for k in (0x4D, 0x4E, 0x4F, 0x50, 0x51, 0x52, 0x5C):
             self._write_if_exists(k, data)
@@ -111,11 +112,12 @@ class TrueTypeInfoCompiler(BaseCompiler):
                     self.write_uint8(value)
 
         # Codepages
-        cp_dict = data[ttinfo_names[0x54]]
-        self.write_uint8(0x54)
-        for ck in ("os2_ul_code_page_range1", "os2_ul_code_page_range2"):
-            value = cp_dict[ck]
-            self.write_value(value, signed=False)
+        if ttinfo_names[0x54] in data:
+            cp_dict = data[ttinfo_names[0x54]]
+            self.write_uint8(0x54)
+            for ck in ("os2_ul_code_page_range1", "os2_ul_code_page_range2"):
+                value = cp_dict[ck]
+                self.write_value(value, signed=False)
 
         self.write_uint8(0x32)  # End marker
 
-- 
2.43.0


From 6a7a78307faa705437ca88ec36f71b82b596aa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 20/66] fix: write bit fields as the signed values they are
 read as

---
 src/vfbLib/compilers/options.py  | 6 ++++--
 src/vfbLib/compilers/truetype.py | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/compilers/options.py b/src/vfbLib/compilers/options.py
index 520f577..4366963 100644
--- a/src/vfbLib/compilers/options.py
+++ b/src/vfbLib/compilers/options.py
@@ -56,6 +56,8 @@ class FontOptionsCompiler(BaseCompiler):
                     pass
             self.write_uint8(raw_key)
             assert isinstance(v, int)
-            # Bit fields may have bit 31 set
-            self.write_value(v, signed=v < 0x80000000)
+            if v > 0x7FFFFFFF:
+                # Bit fields are stored as signed values
+                v -= 0x100000000
+            self.write_value(v)
         self.write_uint8(0x64)
diff --git a/src/vfbLib/compilers/truetype.py b/src/vfbLib/compilers/truetype.py
index 0f9b326..7233242 100644
--- a/src/vfbLib/compilers/truetype.py
+++ b/src/vfbLib/compilers/truetype.py
@@ -59,7 +59,10 @@ class TrueTypeInfoCompiler(BaseCompiler):
         if ttinfo_names[0x39] in data:
             head_flags_options = convert_flags_options_to_int(data)
             self.write_uint8(0x39)
-            self.write_value(head_flags_options, signed=False)
+            if head_flags_options > 0x7FFFFFFF:
+                # The bit field is stored as a signed value
+                head_flags_options -= 0x100000000
+            self.write_value(head_flags_options)
 
         for k in (
             0x3A,
-- 
2.43.0


From 0c3f866eb6fc4b2f3c362be27c640a0040322a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 21/66] fix: write bitmaps of files from Windows

---
 src/vfbLib/compilers/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/bitmap.py b/src/vfbLib/compilers/bitmap.py
index a7b4fd0..a20f1f1 100644
--- a/src/vfbLib/compilers/bitmap.py
+++ b/src/vfbLib/compilers/bitmap.py
@@ -69,7 +69,7 @@ class BaseBitmapCompiler(BaseCompiler):
         # For the "windows" platform, the bitmap must be inverted.
         data = bitmap["data"]
         if self.vfb is not None and self.vfb.writer_platform == "windows":
-            data = [[~b - 0x100 for b in row] for row in data]
+            data = [[~b + 0x100 for b in row] for row in data]
 
         encoded = self._encode_bitmap(data)
         num_values = len(list(chain.from_iterable(encoded)))
-- 
2.43.0


From badca08623008084844ea112178a97356bd12a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 22/66] fix: read bitmaps without any columns

---
 src/vfbLib/parsers/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/bitmap.py b/src/vfbLib/parsers/bitmap.py
index fa97f89..9c95238 100644
--- a/src/vfbLib/parsers/bitmap.py
+++ b/src/vfbLib/parsers/bitmap.py
@@ -66,7 +66,7 @@ class BaseBitmapParser(BaseParser):
             data = [~b + 0x100 for b in data]
 
         # Split list into rows
-        bytes_per_row = ((w + 15) // 16) * 2
+        bytes_per_row = ((max(w, 1) + 15) // 16) * 2
         # fmt:off
         nice = [
             data[j : j + bytes_per_row]  # noqa: E203
-- 
2.43.0


From a7b786730c429b5aa80ad22d52a39c7b86e2c492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 23/66] fix: keep the data of glyphs that are accessed by name

---
 src/vfbLib/vfb/glyph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index bf32f84..c643dc7 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -33,7 +33,8 @@ class VfbGlyph:
         self._parent = parent
         self._glyph: UfoMasterGlyph | None = None
         self.master_index = 0
-        self.empty()
+        if self.entry.data is None:
+            self.empty()
 
     # UFO/cu2qu compatibility
 
-- 
2.43.0


From 41d00ca50d2190c6c9a67a43a5f2941cc4bba43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 24/66] fix: limit the effort for reading incomplete data

---
 src/vfbLib/parsers/base.py     | 18 +++++++++++++++++-
 src/vfbLib/parsers/bitmap.py   |  4 ++--
 src/vfbLib/parsers/glyph.py    | 16 ++++++++++++----
 src/vfbLib/parsers/guides.py   |  4 ++--
 src/vfbLib/parsers/truetype.py |  4 ++--
 src/vfbLib/parsers/value.py    | 25 ++++++++++++++++++++++++-
 6 files changed, 59 insertions(+), 12 deletions(-)

diff --git a/src/vfbLib/parsers/base.py b/src/vfbLib/parsers/base.py
index 7586723..c0b2fe2 100644
--- a/src/vfbLib/parsers/base.py
+++ b/src/vfbLib/parsers/base.py
@@ -12,7 +12,7 @@ from vfbLib.helpers import (
     int16_size,
     int32_size,
 )
-from vfbLib.parsers.value import read_value
+from vfbLib.parsers.value import read_count, read_value
 from vfbLib.typing import MappingModeDict
 
 if TYPE_CHECKING:
@@ -173,6 +173,22 @@ class StreamReader:
         """
         return read_value(self.stream, signed=signed)
 
+    def read_count(self, signed: bool = True) -> int:
+        """
+        Return the number of records that follow in the stream.
+
+        Args:
+            signed (bool, optional): Whether the value is interpreted as a signed value.
+            Defaults to True.
+
+        Raises:
+            EOFError: If the stream is too short for that number of records.
+
+        Returns:
+            int: The number of records
+        """
+        return read_count(self.stream, signed=signed)  # type: ignore
+
 
 class BaseParser(StreamReader):
     """
diff --git a/src/vfbLib/parsers/bitmap.py b/src/vfbLib/parsers/bitmap.py
index 9c95238..5e136d8 100644
--- a/src/vfbLib/parsers/bitmap.py
+++ b/src/vfbLib/parsers/bitmap.py
@@ -117,7 +117,7 @@ class BackgroundBitmapParser(BaseBitmapParser):
         w = self.read_value(signed=False)
         h = self.read_value(signed=False)
         bitmap["size_pixels"] = (w, h)
-        datalen = self.read_value(signed=False)
+        datalen = self.read_count(signed=False)
         if not hasattr(self, "preview"):
             self.preview = True
         bitmap["bitmap"] = self._parse_bitmap_data(w, datalen, preview=self.preview)
@@ -145,7 +145,7 @@ class GlyphBitmapsParser(BaseBitmapParser):
             w = self.read_value(signed=False)
             h = self.read_value(signed=False)
             bitmap["size_pixels"] = (w, h)
-            datalen = self.read_value()
+            datalen = self.read_count()
             bitmap["bitmap"] = self._parse_bitmap_data(w, datalen)
             bitmaps.append(bitmap)
         return bitmaps
diff --git a/src/vfbLib/parsers/glyph.py b/src/vfbLib/parsers/glyph.py
index 89d9c3d..e7c45d0 100644
--- a/src/vfbLib/parsers/glyph.py
+++ b/src/vfbLib/parsers/glyph.py
@@ -63,7 +63,7 @@ def read_absolute_point(
 class GlyphAnchorsParser(BaseParser):
     def _parse(self) -> list[MMAnchorDict]:
         anchors = []
-        num_anchors = self.read_value()
+        num_anchors = self.read_count()
         num_masters = self.read_value()
         for _ in range(num_anchors):
             anchor = MMAnchorDict(x=[], y=[])
@@ -288,7 +288,7 @@ class GlyphParser(BaseParser):
 
                 case 0x2C:
                     # HDMX data
-                    num = self.read_value()
+                    num = self.read_count()
                     imported["hdmx"] = [self.read_uint8() for _ in range(num)]
 
                 case _:
@@ -320,7 +320,7 @@ class GlyphParser(BaseParser):
     def parse_hints(self) -> None:
         hints = MMHintsDict(v=[], h=[])
         for direction in DIRECTIONS:
-            num_hints = self.read_value()
+            num_hints = self.read_count()
             for _ in range(num_hints):
                 master_hints = []
                 for _ in range(self.num_masters):
@@ -384,7 +384,15 @@ class GlyphParser(BaseParser):
         _ = self.read_value()
         # glyphdata["num_node_values"] = num_node_values
 
-        num_nodes = self.read_value()
+        num_nodes = self.read_count()
+        if num_nodes < 1:
+            target["nodes"] = []
+            return num_masters
+
+        if num_masters > self.stream.getbuffer().nbytes:
+            # There is not enough data for a single node
+            raise EOFError
+
         segments: list[MMNode] = []
         x = [0 for _ in range(num_masters)]
         y = [0 for _ in range(num_masters)]
diff --git a/src/vfbLib/parsers/guides.py b/src/vfbLib/parsers/guides.py
index dadfb68..17fc3ed 100644
--- a/src/vfbLib/parsers/guides.py
+++ b/src/vfbLib/parsers/guides.py
@@ -4,8 +4,8 @@ from typing import TYPE_CHECKING
 
 from vfbLib import DIRECTIONS
 from vfbLib.parsers.base import BaseParser
+from vfbLib.parsers.value import read_count, read_value
 from vfbLib.typing import GuideDict, GuidePropertiesDict, GuidePropertyDict
-from vfbLib.value import read_value
 
 if TYPE_CHECKING:
     from io import BytesIO
@@ -35,7 +35,7 @@ def parse_guides(stream: "BytesIO", num_masters: int, name: str) -> "MMGuidesDic
     """
     guides: "MMGuidesDict" = {"h": [], "v": []}
     for direction in DIRECTIONS:
-        num_guides = read_value(stream)
+        num_guides = read_count(stream)
         if num_guides == 0:
             continue
 
diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index 36ecc89..35cee59 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -123,7 +123,7 @@ class TrueTypeInfoParser(BaseParser):
                 case 0x53:
                     # HDMX ppms 1
                     self.assert_unique(info, dk)
-                    num_values = self.read_value()
+                    num_values = self.read_count()
                     info[dk] = [self.read_uint8() for _ in range(num_values)]
 
                 case 0x54:
@@ -153,7 +153,7 @@ class TrueTypeInfoParser(BaseParser):
                 case 0x58:
                     # HDMX ppms 2
                     self.assert_unique(info, hk)
-                    num_values = self.read_value()
+                    num_values = self.read_count()
                     info[hk] = [self.read_uint8() for _ in range(num_values)]
 
                 case _:
diff --git a/src/vfbLib/parsers/value.py b/src/vfbLib/parsers/value.py
index babc68e..c6e507a 100644
--- a/src/vfbLib/parsers/value.py
+++ b/src/vfbLib/parsers/value.py
@@ -3,7 +3,7 @@ from typing import TYPE_CHECKING
 from vfbLib.helpers import int8_size, int32_size
 
 if TYPE_CHECKING:
-    from io import BufferedIOBase
+    from io import BufferedIOBase, BytesIO
 
 
 def read_value(stream: "BufferedIOBase", signed=True) -> int:
@@ -60,3 +60,26 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
         return decoded
 
     raise ValueError
+
+
+def read_count(stream: "BytesIO", signed=True) -> int:
+    """
+    Read an encoded value that specifies the number of records that follow in the
+    stream. As each record takes up at least one byte, a number that is larger than the
+    number of remaining bytes means that the data is incomplete.
+
+    Args:
+        stream (BytesIO): The input stream.
+        signed (bool, optional): Whether to interpret the value as a signed integer.
+            Defaults to True.
+
+    Raises:
+        EOFError: When the stream is too short for that number of records.
+
+    Returns:
+        int: The number of records.
+    """
+    count = read_value(stream, signed)
+    if count > stream.getbuffer().nbytes - stream.tell():
+        raise EOFError
+    return count
-- 
2.43.0


From 2b233037cbcb4407525c7043e4dbd61200008846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 25/66] fix: Leave out the closing line of a contour only where
 all masters can

---
 src/vfbLib/ufo/paths.py | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 90f40a6..4273375 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -11,7 +11,7 @@ from vfbLib.ufo.vfb2ufo import TT_GLYPH_LIB_KEY, TT_UFO_LIB_KEY
 if TYPE_CHECKING:
     from fontTools.pens.pointPen import AbstractPointPen
 
-    from vfbLib.typing import AnchorDict
+    from vfbLib.typing import AnchorDict, MMNode
     from vfbLib.ufo.glyph import VfbToUfoGlyph
     from vfbLib.ufo.typing import UfoComponent, UfoContour
 
@@ -138,6 +138,7 @@ class UfoMasterGlyph:
         in_qcurve = False
         if True:
             contour: "UfoContour" = []
+            contour_nodes: "list[MMNode]" = []
             for i, n in enumerate(mm_nodes):
                 if to_mask:
                     name: str | None = None
@@ -150,7 +151,8 @@ class UfoMasterGlyph:
                 smooth = bool(flags & 1)
 
                 if segment_type == "move":
-                    self._append_contour(contour, path_is_open, to_mask)
+                    self._append_contour(contour, path_is_open, to_mask, contour_nodes)
+                    contour_nodes = []
                     contour = [("move", smooth, name, pt)]
                     path_is_open = bool(flags & 8)
                     in_qcurve = False
@@ -177,7 +179,9 @@ class UfoMasterGlyph:
                     logger.error(f"Unknown segment type: {segment_type}")
                     raise ValueError
 
-            self._append_contour(contour, path_is_open, to_mask)
+                contour_nodes.append(n)
+
+            self._append_contour(contour, path_is_open, to_mask, contour_nodes)
 
         if to_mask:
             # Mask has no components
@@ -314,24 +318,38 @@ class UfoMasterGlyph:
             cmd[key] = self.rename_points[pt_name]
 
     def _append_contour(
-        self, contour: "UfoContour", path_is_open: bool, to_mask: bool = False
+        self,
+        contour: "UfoContour",
+        path_is_open: bool,
+        to_mask: bool,
+        contour_nodes: "list[MMNode]",
     ) -> None:
         """
         Append the contour to the glyph's contours, applying closepath optimizations.
         """
         if contour:
-            ct = self._flush_contour(contour, path_is_open)
+            # The contours must stay compatible between masters, so the last line can
+            # only be left out if it has no length in any of the masters.
+            can_omit_line = all(
+                first[0] == last[0]
+                for first, last in zip(
+                    contour_nodes[0]["points"], contour_nodes[-1]["points"]
+                )
+            )
+            ct = self._flush_contour(contour, path_is_open, to_mask, can_omit_line)
             if to_mask:
                 self.mask_contours.append(ct)
             else:
                 self.contours.append(ct)
 
-    def _apply_closepath(self, contour: "UfoContour", to_mask: bool = False) -> None:
+    def _apply_closepath(
+        self, contour: "UfoContour", to_mask: bool, can_omit_line: bool
+    ) -> None:
         """
         Apply closepath optimizations to the contour.
         """
         last_type = contour[-1][0]
-        if contour[-1][3] == contour[0][3] and last_type not in ("line", "qcurve"):
+        if can_omit_line and last_type not in ("line", "qcurve"):
             # Equal coords, use closepath to draw the last line, but not for explicit
             # lines
             name = contour[0][2]
@@ -356,7 +374,11 @@ class UfoMasterGlyph:
             contour[0] = ("line", smooth, name, pt)
 
     def _flush_contour(
-        self, contour: "UfoContour", path_is_open: bool, to_mask: bool = False
+        self,
+        contour: "UfoContour",
+        path_is_open: bool,
+        to_mask: bool,
+        can_omit_line: bool,
     ) -> "UfoContour":
         """
         Post-process a contour before it is appended to the glyph's contours.
@@ -364,7 +386,7 @@ class UfoMasterGlyph:
         if not path_is_open:
             last_type = contour[-1][0]
             if last_type in ("line", "curve", "qcurve"):
-                self._apply_closepath(contour, to_mask=to_mask)
+                self._apply_closepath(contour, to_mask, can_omit_line)
 
             elif last_type is None:
                 _, smooth, name, pt = contour[0]
-- 
2.43.0


From acc1a23e23bd24ec53cb0cf05ac8dcbb6e9caa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 26/66] fix: Use the final point labels in TrueType programs

---
 src/vfbLib/ufo/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 4273375..7fa90d8 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -76,12 +76,13 @@ class UfoMasterGlyph:
         self.tth_commands = deepcopy(self.mm_glyph.tth_commands)
         if include_ps_hints:
             self._extract_master_ps_hints()
-        self._extract_master_tt_hints()
         if not minimal:
             self._extract_master_contours(to_mask=True)
             self._extract_master_mask_metrics()
         self._extract_master_contours()
         self._finalize_point_labels(include_ps_hints)
+        # The TT program uses the final point labels
+        self._extract_master_tt_hints()
         self._extract_master_anchors()
         if not minimal:
             self._extract_master_guides()
-- 
2.43.0


From 6921ad47f24053c5a2d98f314d260e425c5a3c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 27/66] fix: Use the final point labels in PostScript hint sets

---
 src/vfbLib/ufo/paths.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 7fa90d8..c495aaf 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -6,7 +6,7 @@ from typing import TYPE_CHECKING, Any
 from vfbLib.ufo.guides import apply_guide_properties, get_master_guides
 from vfbLib.ufo.pshints import build_ps_glyph_hints, get_master_hints
 from vfbLib.ufo.tth import set_tth_lib
-from vfbLib.ufo.vfb2ufo import TT_GLYPH_LIB_KEY, TT_UFO_LIB_KEY
+from vfbLib.ufo.vfb2ufo import PS_GLYPH_LIB_KEY, TT_GLYPH_LIB_KEY, TT_UFO_LIB_KEY
 
 if TYPE_CHECKING:
     from fontTools.pens.pointPen import AbstractPointPen
@@ -277,7 +277,10 @@ class UfoMasterGlyph:
         if not self.rename_points:
             return
 
-        # FIXME
+        ps_hints = self.lib.get(PS_GLYPH_LIB_KEY, {})
+        for hint_set in ps_hints.get("hintSetList", []):
+            point_tag = hint_set["pointTag"]
+            hint_set["pointTag"] = self.rename_points.get(point_tag, point_tag)
 
     def _finalize_tt_point_labels(self) -> None:
         """
-- 
2.43.0


From ade2573195d4e9b92ae3d42c7ce0f07a49c12ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 28/66] fix: Write hints from links that point backwards as
 positive stems

---
 src/vfbLib/ufo/pshints.py | 5 +++--
 src/vfbLib/vfb/glyph.py   | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/ufo/pshints.py b/src/vfbLib/ufo/pshints.py
index 5edb782..8e00ed4 100644
--- a/src/vfbLib/ufo/pshints.py
+++ b/src/vfbLib/ufo/pshints.py
@@ -266,8 +266,9 @@ def get_master_hints(
             else:
                 tgt = mmglyph.mm_nodes[itgt]
                 tgt_pos = tgt["points"][master_index][0][i]
-                width = tgt_pos - src_pos
-                # pos = min(src_pos, tgt_pos)
+                # The link may point in either direction
+                pos = min(src_pos, tgt_pos)
+                width = abs(tgt_pos - src_pos)
 
             d = "v" if axis == "x" else "h"
             # Don't normalize those values, the above code already did that
diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index c643dc7..a905752 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -188,7 +188,9 @@ class VfbGlyph:
                 else:
                     tgt = mm_nodes[itgt]
                     tgt_pos = tgt["points"][self.master_index][0][i]
-                    width = tgt_pos - src_pos
+                    # The link may point in either direction
+                    pos = min(src_pos, tgt_pos)
+                    width = abs(tgt_pos - src_pos)
 
                 d = "v" if axis == "x" else "h"
                 # Don't normalize those values, the above code already did that
-- 
2.43.0


From 250fe596b132a2be15ce25eca5831ea907fee25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 29/66] fix: Ignore hint masks for missing hints when resolving
 hint sets

---
 src/vfbLib/vfb/glyph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index a905752..6e96a30 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -127,8 +127,13 @@ class VfbGlyph:
                         hint_sets[set_index] = set_hints
                     set_index = index
                     set_hints = []
-                else:
+                elif index < len(hints[kind]):
                     set_hints.append(hints[kind][index])
+                else:
+                    logger.debug(
+                        f"Hint mask '{kind}' with index {index} found, but there are "
+                        f"only {len(hints[kind])} hints."
+                    )
             if set_hints:
                 # TODO: Filter out any consecutive identical hintmasks
                 hint_sets[set_index] = set_hints
-- 
2.43.0


From 20dae6df7c11ddfef468c1cd97adb2d9aa394e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 30/66] fix: Omit groups whose glyphs are all missing, as
 documented

---
 src/vfbLib/ufo/groups.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/groups.py b/src/vfbLib/ufo/groups.py
index 0edee62..50892e5 100644
--- a/src/vfbLib/ufo/groups.py
+++ b/src/vfbLib/ufo/groups.py
@@ -33,7 +33,7 @@ def check_for_missing_glyphs(
             remaining_glyphs = list(set(glyphs) - set(missing))
             if not remaining_glyphs:
                 logger.warning(f"Not adding empty group '{group_name}' to the UFO.")
-                return glyphs, missing
+                return [], missing
             glyphs = [g for g in glyphs if g not in missing]
     return glyphs, missing
 
@@ -100,6 +100,9 @@ def transform_groups(
             name, glyphs, glyphOrder, skip_missing_group_glyphs
         )
         num_missing = len(missing)
+        if missing and not glyphs:
+            # All glyphs are missing, the group is omitted
+            continue
 
         key_glyph = None
         for key_glyph_candidate in group_key_glyphs:
-- 
2.43.0


From bed23151d1fb60799a2cb28a0aa94d31d0c2d5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 31/66] fix: Convert class definitions with more than one colon

---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index ed8bd27..79e4e2b 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -153,7 +153,7 @@ class VfbToUfoBuilder:
             logger.warning(f"Malformed OT class definition, skipping: {data}")
             return
 
-        name, contents = data.split(":")
+        name, contents = data.split(":", 1)
 
         glyphs: list[str] = []
         for glyph in contents.split(" "):
-- 
2.43.0


From c47985cff76fb7ad559c9607d4feb79f8005a694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 32/66] fix: Keep the bigger stem width where two share a
 rounding ppm, as announced

---
 src/vfbLib/ufo/tth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/ufo/tth.py b/src/vfbLib/ufo/tth.py
index 575eec2..4871e5f 100644
--- a/src/vfbLib/ufo/tth.py
+++ b/src/vfbLib/ufo/tth.py
@@ -75,10 +75,10 @@ def transform_stem_rounds(data: dict[int, int], name: str) -> dict[str, int]:
     """
     d: dict[str, int] = {}
     for k, v in data.items():
-        key = v
+        key = str(v)
         val = k
         if key in d:
-            if val > v:
+            if int(val) > int(d[key]):
                 logger.warning(
                     f"Duplicate rounding ppm {key} in TT stem '{name}', "
                     f"choosing bigger value {val}px over {d[key]}px. {data}"
@@ -90,7 +90,7 @@ def transform_stem_rounds(data: dict[int, int], name: str) -> dict[str, int]:
                     f"keeping value {d[key]}px, ignoring {val}px. {data}"
                 )
         else:
-            d[str(key)] = val
+            d[key] = val
     return d
 
 
-- 
2.43.0


From e31498eb54c9113507e0d976e58f8c1fa5e9bf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 33/66] fix: Use unique stem names in glyph programs, too, and
 keep all stems of the same name

---
 src/vfbLib/ufo/builder.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 79e4e2b..50d566f 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -300,9 +300,29 @@ class VfbToUfoBuilder:
                     round_dict[ppm1] = 1
 
     def set_tt_stems(self, data: TUfoRawStemsDict) -> None:
+        # The names are used as keys and by the glyph programs, so they must be unique
+        names: set[str] = set()
         for d in ("ttStemsH", "ttStemsV"):
             direction_stems = data[d]
+            num_unnamed = 0
             for i, ds in enumerate(direction_stems):
+                name = ds["name"]
+                if name == "":
+                    dname = "v" if d == "ttStemsH" else "h"
+                    name = "%s%02i" % (dname, num_unnamed)
+                    num_unnamed += 1
+                if name in names:
+                    oldname = name
+                    n = 0
+                    while name in names:
+                        name = "%s#%02i" % (oldname, n)
+                        n += 1
+                    logger.warning(
+                        f"Duplicate TrueType stem name '{oldname}', renamed to '{name}'"
+                        ". Preferably make stem names unique in VFB."
+                    )
+                names.add(name)
+
                 # The rounding ppm value for 6 pixels is stored right here. We must
                 #  re-add it to the dict later
                 r = ds["round"]
@@ -317,7 +337,7 @@ class VfbToUfoBuilder:
                 stem: TUfoStemDict = {
                     "horizontal": d == "ttStemsV",
                     "width": ds["value"],
-                    "name": ds["name"],
+                    "name": name,
                     "round": stem_ppms["round"],
                 }
 
@@ -381,22 +401,9 @@ class VfbToUfoBuilder:
     def build_tt_stems_lib(self) -> None:
         lib = {}
         for d in ("ttStemsH", "ttStemsV"):
-            i = 0
-            direction_stems = self.stems[d]
-            for stem in direction_stems:
+            for stem in self.stems[d]:
                 name = stem["name"]
                 del stem["name"]
-                if name == "":
-                    dname = "v" if d == "ttStemsH" else "h"
-                    name = "%s%02i" % (dname, i)
-                    i += 1
-                if name in lib:
-                    oldname = name
-                    name = "%s#%02i" % (oldname, i)
-                    logger.warning(
-                        f"Duplicate TrueType stem name '{oldname}', renamed to '{name}'"
-                        ". Preferably make stem names unique in VFB."
-                    )
                 lib[name] = stem
         if lib:
             self.lib[TT_LIB_KEY]["stems"] = lib
-- 
2.43.0


From 6ba0d63536e6b240cb6acf5d7960d255324b713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 34/66] fix: Keep all TrueType zones of the same name

---
 src/vfbLib/ufo/builder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 50d566f..9254594 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -366,7 +366,14 @@ class VfbToUfoBuilder:
                 )
                 name = dz["name"]
                 if name in self.tt_zones:
-                    logger.warning(f"Duplicate zone name: {name}, overwriting.")
+                    oldname = name
+                    n = 1
+                    while name in self.tt_zones:
+                        name = f"{oldname}#{n}"
+                        n += 1
+                    logger.warning(
+                        f"Duplicate zone name: '{oldname}', renamed to '{name}'."
+                    )
                 self.tt_zones[name] = zone
                 self.tt_zone_names.append(name)  # for deltas
                 self.zone_names[d].append(name)  # for AlignTop/AlignBottom
-- 
2.43.0


From 9f292b267e17067d5a1b9ff0bb6a0aff0867dd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 35/66] fix: Export the rounding for stems of 1 pixel in
 vfb2tth

---
 src/vfbLib/tth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index 27ec4fd..0491b83 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -207,7 +207,8 @@ def extract_tt_stem_ppem_1(data: dict, target: dict) -> None:
             direction_data = data[direction]
             for stem_data in direction_data:
                 stem_index = stem_data["stem"]
-                target[direction][stem_index]["1"] = stem_data["round"]["1"]
+                stem_round = target[direction].setdefault(stem_index, {})
+                stem_round.update(stem_data["round"])
 
 
 def extract_tt_stem_ppems(data: dict, target: dict) -> None:
-- 
2.43.0


From aae18cfeb99e4ca9158eb857b78db01cd6a202f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 36/66] fix: Let vfb2tth export fonts without stems, zones or
 zone deltas

---
 src/vfbLib/tth.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index 0491b83..c886912 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -187,7 +187,7 @@ def extract_glyph_hints(
             IndexVfbToUfoGlyph(),
             data=tth,
             zone_names=zone_names,
-            stems=font_hints["stems"],
+            stems=font_hints.get("stems", {"ttStemsV": [], "ttStemsH": []}),
         )
         tr = ttg.get_tt_glyph_hints()
         target[data["name"]] = tr
@@ -314,22 +314,20 @@ def merge_stem_information(data: dict, font: dict) -> None:
     """
     stems_dict = {}
     for direction in ("ttStemsV", "ttStemsH"):
-        if direction in data:
-            direction_data = data[direction]
-            for stem_index, rounding in direction_data.items():
-                stem = font["stems"][direction][stem_index]
-                stem["round"].update(rounding)
-                # Sort the rounding dict by value (px)
-                rd = transform_stem_rounds(stem["round"], stem["name"])
-                srtl = sorted(rd.items(), key=lambda item: item[1])
-                srd = {k: v for k, v in srtl}
-                stem["round"] = srd
-                stems_dict[stem["name"]] = deepcopy(stem)
-                del stems_dict[stem["name"]]["name"]
+        direction_data = data.get(direction, {})
+        for stem_index, stem in enumerate(font.get("stems", {}).get(direction, [])):
+            stem["round"].update(direction_data.get(stem_index, {}))
+            # Sort the rounding dict by value (px)
+            rd = transform_stem_rounds(stem["round"], stem["name"])
+            srtl = sorted(rd.items(), key=lambda item: item[1])
+            srd = {k: v for k, v in srtl}
+            stem["round"] = srd
+            stems_dict[stem["name"]] = deepcopy(stem)
+            del stems_dict[stem["name"]]["name"]
     if stems_dict:
         font["stems"] = stems_dict
     else:
-        del font["stems"]
+        font.pop("stems", None)
 
 
 def merge_zone_information(font: dict) -> None:
@@ -342,7 +340,7 @@ def merge_zone_information(font: dict) -> None:
     """
     all_zones = []
     for side in ("ttZonesB", "ttZonesT"):
-        for zone in font["zones"].get(side, []):
+        for zone in font.get("zones", {}).get(side, []):
             all_zones.append(zone)
     for zone_index, zone_delta in font.get("zone_deltas", {}).items():
         zone = all_zones[zone_index]
@@ -356,5 +354,5 @@ def merge_zone_information(font: dict) -> None:
     if zones_dict:
         font["zones"] = zones_dict
     else:
-        del font["zones"]
-    del font["zone_deltas"]
+        font.pop("zones", None)
+    font.pop("zone_deltas", None)
-- 
2.43.0


From e52ddc1ce35e9b2878acf002a66822e0f8ef034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 37/66] fix: Convert links with a stem in fonts without stems

---
 src/vfbLib/ufo/tth.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/ufo/tth.py b/src/vfbLib/ufo/tth.py
index 4871e5f..668a9ab 100644
--- a/src/vfbLib/ufo/tth.py
+++ b/src/vfbLib/ufo/tth.py
@@ -150,12 +150,13 @@ class TTGlyphHints:
                                 f"Stem index in {stem_dir} out of range in "
                                 f"{self.glyph.name}: {stem} (of "
                                 f"{len(self.stems[stem_dir])} existing stems). "
-                                "Choosing first stem."
+                                "Choosing first stem, if any."
                             )
                             logger.warning(f"{code}: {params}")
                             logger.warning(self.stems[stem_dir])
                             stem = 0
-                        d["stem"] = self.stems[stem_dir][stem]["name"]
+                        if self.stems[stem_dir]:
+                            d["stem"] = self.stems[stem_dir][stem]["name"]
                 if "align" in params:
                     align = params["align"]
                     if align > -1:
-- 
2.43.0


From 5e3d472b3d7968981832629b9ed5cfc662ea5289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 38/66] fix: Convert fonts with a width class out of range

---
 src/vfbLib/ufo/info.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/info.py b/src/vfbLib/ufo/info.py
index 1dbfd99..b239c68 100644
--- a/src/vfbLib/ufo/info.py
+++ b/src/vfbLib/ufo/info.py
@@ -191,7 +191,7 @@ class VfbToUfoInfo(Info):
             # "head_flags": "", # below
             # "head_units_per_em": "unitsPerEm",  # duplicate
             # "os2_us_weight_class": "openTypeOS2WeightClass",  # duplicate
-            "os2_us_width_class": "openTypeOS2WidthClass",
+            # "os2_us_width_class": "openTypeOS2WidthClass",  # below
             "head_lowest_rec_ppem": "openTypeHeadLowestRecPPEM",
             "os2_y_subscript_x_size": "openTypeOS2SubscriptXSize",
             "os2_y_subscript_y_size": "openTypeOS2SubscriptYSize",
@@ -307,6 +307,8 @@ class VfbToUfoInfo(Info):
                     c = v >> 8
                     s = v & ~(c << 8)
                     self.openTypeOS2FamilyClass = [c, s]
+                elif k == "os2_us_width_class":
+                    self.set_width_class(v)
                 elif k == "os2_us_weight_class":
                     # Duplicate, we set it from a separate entry (weight_code)
                     # self.openTypeOS2WeightClass = v
@@ -349,6 +351,9 @@ class VfbToUfoInfo(Info):
     def set_weight_class(self, data: int) -> None:
         self.openTypeOS2WeightClass = min(max(1, data), 1000)
 
+    def set_width_class(self, data: int) -> None:
+        self.openTypeOS2WidthClass = WidthClass(min(max(1, data), 9))
+
     def set_tt_instructions(self, key: str, value: Any) -> None:
         if TT_UFO_LIB_KEY not in self.lib:
             # Prepare UFO-level lib entry for TrueType values
-- 
2.43.0


From 740fb3d64afb958e8f2eef239e6fdd037db9f27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 39/66] fix: Convert fonts with a negative embedding value

---
 src/vfbLib/ufo/info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/info.py b/src/vfbLib/ufo/info.py
index b239c68..c27acf9 100644
--- a/src/vfbLib/ufo/info.py
+++ b/src/vfbLib/ufo/info.py
@@ -302,7 +302,7 @@ class VfbToUfoInfo(Info):
                     # self.info.openTypeOS2Type = binaryToIntList(v)
                     pass
                 elif k == "os2_fs_type":
-                    self.openTypeOS2Type = binaryToIntList(v)
+                    self.openTypeOS2Type = binaryToIntList(v & 0xFFFF)
                 elif k == "os2_s_family_class":
                     c = v >> 8
                     s = v & ~(c << 8)
-- 
2.43.0


From f4a173d51d4e6bc98bdccf8521d044393530d587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 40/66] fix: Extract all masters of fonts with one or three
 axes and no master names

---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 9254594..5b01f6a 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -698,7 +698,7 @@ class VfbToUfoBuilder:
         if self.axis_count == 0:
             masters_count = 1
         else:
-            masters_count = self.axis_count**2
+            masters_count = 2**self.axis_count
         if len(self.masters) < masters_count:
             additional = [f"m{n}" for n in range(len(self.masters), masters_count)]
             self.masters.extend(additional)
-- 
2.43.0


From 6be8230adbadcac05846653286ad00612f78532f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:56 +0000
Subject: [PATCH 41/66] fix: Keep all glyphs with the same name, and the
 kerning of each of them

---
 src/vfbLib/ufo/builder.py | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 5b01f6a..9f3c30b 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -178,7 +178,9 @@ class VfbToUfoBuilder:
     def build_mm_glyph(self, data: dict[str, Any]) -> None:
         g = self.current_glyph = VfbToUfoGlyph(self)
         g.lib = {}
-        g.name = data["name"]
+        g.name = self.get_unique_glyph_name(data["name"])
+        self.glyph_masters[g.name] = g
+        self.glyphOrder.append(g.name)
         g.unicodes = []
 
         # MM Stuff, need to extract later
@@ -211,6 +213,16 @@ class VfbToUfoBuilder:
             if "instructions" in imported:
                 g.set_instructions(imported["instructions"])
 
+    def get_unique_glyph_name(self, name: str) -> str:
+        if name not in self.glyph_masters:
+            return name
+
+        i = 0
+        while (new_name := f"{name}#{i}") in self.glyph_masters:
+            i += 1
+        logger.warning(f"Duplicate glyph, renamed from {name} to {new_name}.")
+        return new_name
+
     def set_feature_code(self, data: list[str]) -> None:
         # Make the kern feature compilable
         self.features_code = "\n".join(rename_kern_classes_in_feature_code(data))
@@ -463,24 +475,6 @@ class VfbToUfoBuilder:
 
             match key:
                 case G.Glyph:
-                    if self.current_glyph is not None:
-                        name = self.current_glyph.name
-                        if name in self.glyph_masters:
-                            for i in range(255):
-                                n = f"{name}#{i}"
-                                if n not in self.glyph_masters:
-                                    self.glyph_masters[n] = self.current_glyph
-                                    self.glyphOrder.append(n)
-                                    logger.warning(
-                                        f"Duplicate glyph, renamed from {name} to {n}."
-                                    )
-                                    break
-                        else:
-                            if name is None:
-                                logger.error("Glyph without name.")
-                            else:
-                                self.glyph_masters[name] = self.current_glyph
-                                self.glyphOrder.append(name)
                     self.build_mm_glyph(data)
                 case G.VSB:
                     assert self.current_glyph is not None
@@ -673,10 +667,6 @@ class VfbToUfoBuilder:
                             pass
                     logger.info(f"Unhandled entry: {k}")
 
-        if self.current_glyph is not None:
-            assert self.current_glyph.name is not None
-            self.glyph_masters[self.current_glyph.name] = self.current_glyph
-            self.glyphOrder.append(self.current_glyph.name)
         self.lib["public.glyphOrder"] = self.glyphOrder
         self.build_tt_glyph_lib()
         self.assure_tt_lib()
-- 
2.43.0


From 9744ad4512b818872448f1319cc0e59577579888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 42/66] fix: Don't modify the VFB when it is converted to UFO

---
 src/vfbLib/ufo/builder.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 9f3c30b..104e7c0 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -188,10 +188,10 @@ class VfbToUfoBuilder:
             g.mm_guides = data["guides"]
 
         if self.include_ps_hints and "hints" in data:
-            g.mm_hints = data["hints"]
-            if "hintmasks" in data["hints"]:
-                g.hintmasks = data["hints"]["hintmasks"]
-                del data["hints"]["hintmasks"]
+            # Don't modify the data of the VFB
+            g.mm_hints = data["hints"].copy()
+            if "hintmasks" in g.mm_hints:
+                g.hintmasks = g.mm_hints.pop("hintmasks")
 
         if "kerning" in data:
             kerning: dict[int, list[int]] = data["kerning"]
@@ -229,8 +229,9 @@ class VfbToUfoBuilder:
 
     def set_glyph_background(self, data: dict[str, Any]) -> None:
         assert self.current_glyph is not None
-        if "preview" in data["bitmap"]:
-            del data["bitmap"]["preview"]
+        # Don't modify the data of the VFB
+        data = data.copy()
+        data["bitmap"] = {k: v for k, v in data["bitmap"].items() if k != "preview"}
         self.current_glyph.lib["com.fontlab.v5.background"] = data
 
     def set_glyph_bitmaps(self, data: "list[GlyphBitmapDict]") -> None:
-- 
2.43.0


From d0e5c210d913376f4998d1345f136838516da0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 43/66] fix: Write the designspace for axes without mappings

---
 src/vfbLib/ufo/builder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 104e7c0..3a60f8d 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -591,7 +591,14 @@ class VfbToUfoBuilder:
                         "Serif": "SERF",
                     }
                     self.axes.append(
-                        AxisDescriptor(tag=tags.get(data, data.upper()[:4]), name=data)
+                        AxisDescriptor(
+                            tag=tags.get(data, data.upper()[:4]),
+                            name=data,
+                            # Used when there are no mappings for the axis
+                            minimum=0,
+                            default=0,
+                            maximum=1000,
+                        )
                     )
                 case F.AxisMappingsCount:
                     self.axis_mappings_count: list[int] = data
-- 
2.43.0


From 9181cea645c5d6c2538a693dcec8d9d783a23a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:27 +0000
Subject: [PATCH 44/66] fix: Convert fonts without PostScript info for a master

---
 src/vfbLib/ufo/builder.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 3a60f8d..377bff1 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -720,14 +720,18 @@ class VfbToUfoBuilder:
                 ]
             )
 
+        ps_info: dict = {}
+        if master_index < len(self.masters_ps_info):
+            ps_info = self.masters_ps_info[master_index]
+
         for key, attr in properties:
-            value = self.masters_ps_info[master_index].get(key, None)
+            value = ps_info.get(key, None)
             if value is not None:
                 setattr(master_info, attr, value)
 
         if self.include_ps_hints:
             # Set "force bold"
-            value = self.masters_ps_info[master_index].get("force_bold", None)
+            value = ps_info.get("force_bold", None)
             if value is not None:
                 master_info.postscriptForceBold = bool(value)
 
@@ -745,7 +749,7 @@ class VfbToUfoBuilder:
                 if num_values == 0:
                     continue
 
-                value = self.masters_ps_info[master_index].get(key, None)
+                value = ps_info.get(key, None)
                 if value is not None:
                     setattr(master_info, attr, value[:num_values])
 
-- 
2.43.0


From 6e338097c96508daa42c9c7eb34ae48ccf776dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:47 +0000
Subject: [PATCH 45/66] fix: Allow drawing into any master of a glyph

---
 src/vfbLib/vfb/pens.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index b49f17a..dd17bb7 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -27,7 +27,9 @@ class VfbGlyphPointPen(AbstractPointPen):
             self.target = self.glyph.entry.data
         else:
             if self.glyph.entry.temp_masters is None:
-                self.glyph.entry.temp_masters = [[] * self.glyphSet.num_masters]
+                self.glyph.entry.temp_masters = [
+                    {} for _ in range(self.glyphSet.num_masters)
+                ]
             self.target = self.glyph.entry.temp_masters[self.glyph.master_index]
 
     def beginPath(
-- 
2.43.0


From 5841e96d40e78f7d1d6b842fd6ed8978fe8f6f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 46/66] fix: Draw quadratic curves at the end of a contour to
 the start of that contour

---
 src/vfbLib/vfb/glyph.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 6e96a30..b3bdbb1 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -217,14 +217,16 @@ class VfbGlyph:
         in_path = False
         in_qcurve = False
         qcurve = []
+        start = None
 
         for n in glyph.get("nodes", []):
             node_type = n.get("type")
             flags = n.get("flags", 0)
             pt = n["points"][self.master_index][0]
             if node_type == "move":
-                if in_qcurve:
-                    qcurve.append(pt)
+                if in_qcurve and not path_is_open:
+                    # The curve ends at the start point of its contour
+                    qcurve.append(start)
                     pen.qCurveTo(*qcurve)
                 if in_path:
                     if path_is_open:
@@ -235,6 +237,7 @@ class VfbGlyph:
                 in_qcurve = False
                 qcurve = []
                 pen.moveTo(pt)
+                start = pt
                 in_path = True
                 path_is_open = bool(flags & 8)
 
@@ -256,6 +259,9 @@ class VfbGlyph:
                 qcurve.append(pt)
             else:
                 raise ValueError(f"Unknown node type: '{node_type}'")
+        if in_qcurve and not path_is_open:
+            qcurve.append(start)
+            pen.qCurveTo(*qcurve)
         if in_path:
             if path_is_open:
                 pen.endPath()
-- 
2.43.0


From a161d6c7fe870d0a9e871ee7876b59350af9faf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 47/66] fix: Draw closed contours with drawPointsDirect

---
 src/vfbLib/vfb/glyph.py | 47 ++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index b3bdbb1..f77ea3b 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -305,39 +305,52 @@ class VfbGlyph:
 
         glyph = self.entry.data
 
-        in_path = False
+        contour: list[tuple[tuple[float, float], str | None]] = []
+        path_is_open = False
         in_qcurve = False
 
+        def draw_contour() -> None:
+            if not contour:
+                return
+
+            if not path_is_open:
+                # Closed contours don't begin with a "move"
+                pt, _ = contour[0]
+                if len(contour) > 1 and contour[-1] == (pt, "curve"):
+                    # The curve already ends at the start point
+                    contour[0] = contour.pop()
+                else:
+                    contour[0] = (pt, "qcurve" if in_qcurve else "line")
+            pen.beginPath()
+            for pt, segment_type in contour:
+                pen.addPoint(pt, segment_type)
+            pen.endPath()
+
         for n in glyph.get("nodes", []):
             node_type = n.get("type")
             if node_type == "move":
-                if in_qcurve:
-                    pen.addPoint(n["points"][self.master_index][0], "qcurve")
-                    in_qcurve = False
-                if in_path:
-                    pen.endPath()
-                pen.beginPath()
-                in_path = True
-                pen.addPoint(n["points"][self.master_index][0], "move")
+                draw_contour()
+                in_qcurve = False
+                contour = [(n["points"][self.master_index][0], "move")]
+                path_is_open = bool(n.get("flags", 0) & 8)
             elif node_type == "line":
                 if in_qcurve:
-                    pen.addPoint(n["points"][self.master_index][0], "qcurve")
+                    contour.append((n["points"][self.master_index][0], "qcurve"))
                     in_qcurve = False
                 else:
-                    pen.addPoint(n["points"][self.master_index][0], "line")
+                    contour.append((n["points"][self.master_index][0], "line"))
             elif node_type == "curve":
                 pt3, pt1, pt2 = n["points"][self.master_index]
-                pen.addPoint(pt1, None)
-                pen.addPoint(pt2, None)
-                pen.addPoint(pt3, "curve")
+                contour.append((pt1, None))
+                contour.append((pt2, None))
+                contour.append((pt3, "curve"))
             elif node_type == "qcurve":
                 if not in_qcurve:
                     in_qcurve = True
-                pen.addPoint(n["points"][self.master_index][0], None)
+                contour.append((n["points"][self.master_index][0], None))
             else:
                 raise ValueError(f"Unknown node type: '{node_type}'")
-        if in_path:
-            pen.endPath()
+        draw_contour()
 
         for c in glyph.get("components", []):
             baseGlyphName = self._parent.glyph_order[c["gid"]]
-- 
2.43.0


From 8efe1d36fa75e0fd57e69eba91fd6185a5591de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:10 +0000
Subject: [PATCH 48/66] fix: Keep the outline of contours drawn into a VFB that
 begin with an off-curve point

---
 src/vfbLib/vfb/pens.py | 87 +++++++++++++++++++++++-------------------
 1 file changed, 47 insertions(+), 40 deletions(-)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index dd17bb7..6a1aa66 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -21,8 +21,7 @@ class VfbGlyphPointPen(AbstractPointPen):
         """
         self.glyph = glyph
         self.glyphSet = glyphSet
-        self.currentPath = None
-        self.in_qcurve = False
+        self.currentPath: "list[tuple[str | None, tuple[float, float]]] | None" = None
         if self.glyph.master_index == 0:
             self.target = self.glyph.entry.data
         else:
@@ -47,9 +46,50 @@ class VfbGlyphPointPen(AbstractPointPen):
         if self.currentPath is None:
             raise TypeError
 
-        self.target["nodes"].extend(self.currentPath)
+        self.target["nodes"].extend(self._get_nodes(self.currentPath))
         self.currentPath = None
 
+    def _get_nodes(
+        self, points: list[tuple[str | None, tuple[float, float]]]
+    ) -> list[dict[str, Any]]:
+        """
+        Convert the points of a path to VFB nodes.
+        """
+        if points and points[0][0] is None:
+            # The path must begin with an on-curve point
+            for i, (segment_type, _) in enumerate(points):
+                if segment_type is not None:
+                    points = points[i:] + points[:i]
+                    break
+            else:
+                # There are only off-curve points, insert an implied on-curve point
+                (x0, y0), (x1, y1) = points[-1][1], points[0][1]
+                start = ((x0 + x1) / 2, (y0 + y1) / 2)
+                points = [("qcurve", start)] + points
+
+        nodes: list[dict[str, Any]] = []
+        for segment_type, (x, y) in points:
+            flags = 0
+            if not nodes:
+                # VFB first node always has type "move"
+                node_type = "move"
+                if segment_type == "move":  # Open path
+                    flags += 8
+            elif segment_type is None:
+                node_type = "qcurve"
+            else:
+                node_type = "line"
+            nodes.append(
+                {
+                    "type": node_type,
+                    "flags": flags,
+                    "points": [
+                        [(round(x), round(y))] for _ in range(self.glyphSet.num_masters)
+                    ],
+                }
+            )
+        return nodes
+
     def addPoint(
         self,
         pt: tuple[float, float],
@@ -61,44 +101,11 @@ class VfbGlyphPointPen(AbstractPointPen):
     ) -> None:
         assert self.currentPath is not None
 
-        flags = 0
-        x, y = pt
-        node = {
-            "type": None,
-            "flags": flags,
-            "points": [
-                [(round(x), round(y))] for _ in range(self.glyphSet.num_masters)
-            ],
-        }
-
-        if segmentType == "qcurve":
-            self.in_qcurve = True
-
-        if not self.currentPath:
-            # Begin a new path
-
-            if segmentType == "move":  # Open path
-                flags += 8
-
-            # VFB first node always has type "move"
-            node["type"] = "move"
-
-        else:
-            # During path
-            if segmentType is None:
-                node["type"] = "qcurve"
-            elif segmentType == "qcurve":
-                if self.in_qcurve:
-                    node["type"] = "line"
-                    self.in_qcurve = False
-            elif segmentType == "line":
-                node["type"] = "line"
-            else:
-                print(f"Unsupported segment type: {segmentType}")
-                raise ValueError
+        if segmentType not in (None, "move", "line", "qcurve"):
+            print(f"Unsupported segment type: {segmentType}")
+            raise ValueError
 
-        node["flags"] = flags
-        self.currentPath.append(node)
+        self.currentPath.append((segmentType, pt))
 
     def addComponent(
         self,
-- 
2.43.0


From 2243f7c6b37ef600de3bf2290fea363d7eeb9d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 49/66] fix: Round the offset of components that are drawn into
 a VFB

---
 src/vfbLib/vfb/pens.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index 6a1aa66..6a6ac68 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -115,9 +115,9 @@ class VfbGlyphPointPen(AbstractPointPen):
         **kwargs: Any,
     ) -> None:
         assert self.currentPath is None
-        base_index = self.glyphSet.glyph_order.index(baseGlyphName)
-        if base_index == -1:
+        if baseGlyphName not in self.glyphSet.glyph_order:
             raise KeyError(f"Base glyph not found: '{baseGlyphName}'")
+        base_index = self.glyphSet.glyph_order.index(baseGlyphName)
 
         xx, xy, yx, yy, dx, dy = transformation
 
@@ -129,8 +129,8 @@ class VfbGlyphPointPen(AbstractPointPen):
         self.target["components"].append(
             {
                 "gid": base_index,
-                "offsetX": [dx] * self.glyphSet.num_masters,
-                "offsetY": [dy] * self.glyphSet.num_masters,
+                "offsetX": [round(dx)] * self.glyphSet.num_masters,
+                "offsetY": [round(dy)] * self.glyphSet.num_masters,
                 "scaleX": [xx] * self.glyphSet.num_masters,
                 "scaleY": [yy] * self.glyphSet.num_masters,
             }
-- 
2.43.0


From 4a89ee038792aa069adcd0dce950de9270c36e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 50/66] fix: Return the current name and outline of a glyph

---
 src/vfbLib/vfb/glyph.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index f77ea3b..ec35fc5 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -1,5 +1,4 @@
 import logging
-from functools import cached_property
 from typing import TYPE_CHECKING
 
 from fontTools.pens.pointPen import AbstractPointPen, SegmentToPointPen
@@ -51,12 +50,12 @@ class VfbGlyph:
         node_types = [node["type"] for node in self.entry.data["nodes"]]
         return node_types.count("move")
 
-    @cached_property
+    @property
     def name(self) -> str | None:
-        if self._glyph is None:
+        if not isinstance(self.entry.data, dict):
             return None
 
-        return self._glyph.name
+        return self.entry.data.get("name")
 
     def clearContours(self):
         try:
@@ -287,8 +286,8 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
-        if self._glyph is None:
-            self._copy_to_ufo_glyph()
+        # The outline may have changed since it was last drawn
+        self._copy_to_ufo_glyph()
 
         if self._glyph is None:
             raise ValueError
@@ -405,12 +404,12 @@ class VfbGlyphMaster:
         node_types = [node["type"] for node in self.entry.data["nodes"]]
         return node_types.count("move")
 
-    @cached_property
+    @property
     def name(self) -> str | None:
-        if self._glyph is None:
+        if not isinstance(self.entry.data, dict):
             return None
 
-        return self._glyph.name
+        return self.entry.data.get("name")
 
     def _copy_to_ufo_glyph(self, master_index):
         """
@@ -465,8 +464,8 @@ class VfbGlyphMaster:
         if self.entry.data is None:
             raise ValueError
 
-        if self._glyph is None:
-            self._copy_to_ufo_glyph(self.master_index)
+        # The outline may have changed since it was last drawn
+        self._copy_to_ufo_glyph(self.master_index)
 
         if self._glyph is None:
             raise ValueError
-- 
2.43.0


From c0dea9f6f160ddeacca599ba46023e4d021f147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 51/66] fix: Allow access to the glyphs after a VFB has been
 compiled

---
 src/vfbLib/vfb/entry.py | 1 +
 src/vfbLib/vfb/vfb.py   | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index bc0c762..7a115fa 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -251,6 +251,7 @@ class VfbEntry(StreamReader):
             return
 
         self.compiler.merge(self.temp_masters, self.data)
+        self.temp_masters = None
 
     def read(self, stream: "BufferedIOBase") -> None:
         """
diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 7166493..e4274f7 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -193,7 +193,10 @@ class Vfb:
     def __getitem__(self, key: str) -> VfbGlyph:
         if not self._glyphs:
             self._decompile_glyphs()
-        return self._glyphs[key]
+        glyph = self._glyphs[key]
+        # The entry may have been compiled since the last access
+        glyph.entry.decompile()
+        return glyph
 
     def getGlyphMaster(self, key: str, master_index: int) -> VfbGlyphMaster:
         return VfbGlyphMaster(self[key], master_index)
@@ -221,7 +224,7 @@ class Vfb:
     def items(self) -> Iterable[tuple[str, VfbGlyph]]:
         if not self._glyphs:
             self._decompile_glyphs()
-        return self._glyphs.items()
+        return {name: self[name] for name in self._glyphs}.items()
 
     def keys(self) -> Iterable[str]:
         if not self._glyphs:
-- 
2.43.0


From 59bcb9468851e39da4bee7e92b3687ceefef01ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:07 +0000
Subject: [PATCH 52/66] fix: Return the glyphs of the master from
 VfbMaster.items()

---
 src/vfbLib/vfb/vfb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index e4274f7..0bd9762 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -45,8 +45,8 @@ class VfbMaster:
     def info(self) -> VfbInfo:
         return self.vfb.info
 
-    def items(self) -> Iterable[tuple[str, VfbGlyph]]:
-        return self.vfb.items()
+    def items(self) -> Iterable[tuple[str, VfbGlyphMaster]]:
+        return {name: self[name] for name in self.keys()}.items()
 
     def keys(self) -> Iterable[str]:
         return self.vfb.keys()
-- 
2.43.0


From 7298c1ec344a8ed46b836b0b0dfa6ac5af2015db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:38 +0000
Subject: [PATCH 53/66] fix: Compile the VFB before opening the output file

When an entry could not be compiled, an existing file was truncated.
---
 src/vfbLib/vfb/vfb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 0bd9762..f5da985 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -1,5 +1,6 @@
 import logging
 from collections.abc import Iterable
+from io import BytesIO
 from pathlib import Path
 from time import time
 from typing import TYPE_CHECKING, Any
@@ -319,8 +320,11 @@ class Vfb:
         """
         Compile any entries with changes, and write the VFB to out_path.
         """
+        # If something can't be compiled, an existing file must not be overwritten
+        buffer = BytesIO()
+        self.write_bytes(buffer)
         with open(out_path, "wb") as vfb:
-            self.write_bytes(vfb)
+            vfb.write(buffer.getvalue())
 
     def write_bytes(self, buffer: "BufferedIOBase") -> None:
         """
-- 
2.43.0


From bc49f159f15ccc032f574dac80c0ff1b6856e2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:47 +0000
Subject: [PATCH 54/66] fix: Don't overwrite existing files with vfb3ufo --json

Existing JSON files were overwritten without -fo. Also check all output files, including the designspace, before any of them is written.
---
 src/vfbLib/ufo/builder.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 377bff1..aba1b78 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -923,6 +923,14 @@ class VfbToUfoBuilder:
         # Build UFOs and DesignSpace
         ufos, ds = self.get_ufos_designspace(out_path, silent)
 
+        if not overwrite:
+            paths = [self.get_master_path(out_path, i) for i in range(len(ufos))]
+            if ds:
+                paths.append(out_path.with_suffix(".designspace"))
+            for path in paths:
+                if path.exists():
+                    raise FileExistsError(str(path))
+
         # Write the master UFOs
         strct = UFOFileStructure.ZIP if ufoz else None
         indent = None if ufoz else 2
@@ -940,9 +948,6 @@ class VfbToUfoBuilder:
         # Write the Designspace
         if ds:
             ds_path = out_path.with_suffix(".designspace")
-            if ds_path.exists():
-                if not overwrite:
-                    raise FileExistsError(str(ds_path))
             if not silent:
                 print(f"Writing designspace: {ds_path}")
             ds.write(str(ds_path))
-- 
2.43.0


From a150b830de2cd0437d3c6e177596a0002b8b6b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 55/66] fix: Use the outputpath argument of vfb3ufo and
 vfbcu2qu

The argument was accepted, but ignored.
---
 src/vfbLib/cmdline.py | 6 +++++-
 src/vfbLib/cu2qu.py   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/cmdline.py b/src/vfbLib/cmdline.py
index 641a853..ed22c54 100644
--- a/src/vfbLib/cmdline.py
+++ b/src/vfbLib/cmdline.py
@@ -224,7 +224,11 @@ def vfb2ufo():
         suffix = ".ufo"
         if args.zip and not args.json:
             suffix += "z"
-        if args.path:
+        if args.outputpath:
+            out_path = Path(args.outputpath)
+            if args.path:
+                out_path = Path(args.path[0]) / out_path
+        elif args.path:
             out_path = (Path(args.path[0]) / vfb_path.name).with_suffix(suffix)
         else:
             out_path = vfb_path.with_suffix(suffix)
diff --git a/src/vfbLib/cu2qu.py b/src/vfbLib/cu2qu.py
index bcb8d82..c991cd7 100644
--- a/src/vfbLib/cu2qu.py
+++ b/src/vfbLib/cu2qu.py
@@ -79,7 +79,11 @@ def vfbcu2qu():
             return
 
         suffix = ".qu.vfb"
-        if args.path:
+        if args.outputpath:
+            out_path = Path(args.outputpath)
+            if args.path:
+                out_path = Path(args.path[0]) / out_path
+        elif args.path:
             suffix = ".vfb"
             out_path = (Path(args.path[0]) / vfb_path.name).with_suffix(suffix)
         else:
-- 
2.43.0


From 13f5ee4a911fd8b8f6afab02465b065f680f45f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 56/66] fix: Don't print timing information in the silent mode
 of vfb3ufo

---
 src/vfbLib/cmdline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfbLib/cmdline.py b/src/vfbLib/cmdline.py
index ed22c54..b438eac 100644
--- a/src/vfbLib/cmdline.py
+++ b/src/vfbLib/cmdline.py
@@ -217,6 +217,7 @@ def vfb2ufo():
             print(f"Reading file {vfb_path} ...")
         vfb = Vfb(
             vfb_path,
+            timing=not args.silent,
             minimal=args.minimal,
             drop_keys={F.Encoding, F.EncodingDefault},
             unicode_strings=args.unicode_strings,
-- 
2.43.0


From f6f52906ebbb8054a2fc02412e982acdb737837a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:17 +0000
Subject: [PATCH 57/66] fix: Compare lines, not characters, in the HTML output
 of vfbdiff

---
 src/vfbLib/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/diff.py b/src/vfbLib/diff.py
index 0af044d..a412c9e 100644
--- a/src/vfbLib/diff.py
+++ b/src/vfbLib/diff.py
@@ -60,8 +60,8 @@ def diffvfb():
     if args.html:
         html_diff = HtmlDiff()
         html = html_diff.make_file(
-            str(vfb1_str),
-            str(vfb2_str),
+            vfb1_str,
+            vfb2_str,
             str(vfb1_path),
             str(vfb2_path),
             context=True,
-- 
2.43.0


From 6c38de82d3647bdcbb2c3c3c207b28c723a9b8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:27 +0000
Subject: [PATCH 58/66] fix: Reset all state when a VFB is read again

Glyphs, number of masters and stems, and units per em of the previous file were kept.
---
 src/vfbLib/vfb/info.py | 3 +--
 src/vfbLib/vfb/vfb.py  | 9 +++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/info.py b/src/vfbLib/vfb/info.py
index f7fa52a..8e65aee 100644
--- a/src/vfbLib/vfb/info.py
+++ b/src/vfbLib/vfb/info.py
@@ -1,4 +1,3 @@
-from functools import cached_property
 from typing import TYPE_CHECKING
 
 if TYPE_CHECKING:
@@ -9,7 +8,7 @@ class VfbInfo:
     def __init__(self, vfb: "Vfb") -> None:
         self.parent = vfb
 
-    @cached_property
+    @property
     def unitsPerEm(self) -> int:
         for entry in self.parent.entries:
             if entry.key == "upm":
diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index f5da985..a58a8d0 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -139,6 +139,15 @@ class Vfb:
         """
         self.header = VfbHeader()
         self.entries = []
+        self._glyphs = {}
+        self.glyph_order = []
+        self.encoding = "utf-8"
+        self.num_masters = 0
+        self.ttStemsV_count = 0
+        self.ttStemsH_count = 0
+        self.writer_platform = "macos"
+        self.ps_hinting_options = None
+        self.any_errors = False
 
     def compile(self) -> None:
         """
-- 
2.43.0


From 96f059eb33ac64ddc6799172d16b69b8bb00e2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:56 +0000
Subject: [PATCH 59/66] fix: Use the longest notation when yuri is asked to

The -l option had no effect.
---
 src/vfbLib/value.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/value.py b/src/vfbLib/value.py
index cfcb271..ed68e81 100644
--- a/src/vfbLib/value.py
+++ b/src/vfbLib/value.py
@@ -1,7 +1,7 @@
 from argparse import ArgumentParser
 from io import BytesIO
 
-from vfbLib.compilers.value import write_value
+from vfbLib.compilers.value import write_value, write_value_long
 from vfbLib.helpers import deHexStr, hexStr
 from vfbLib.parsers.value import read_value
 
@@ -46,7 +46,10 @@ def yuri():
         if args.encode:
             stream = BytesIO()
             for value in args.hexstring:
-                write_value(int(value), stream, args.signed)
+                if args.long:
+                    write_value_long(int(value), stream, args.signed)
+                else:
+                    write_value(int(value), stream, args.signed)
             print(hexStr(stream.getvalue()))
         else:
             data = deHexStr("".join(args.hexstring))
-- 
2.43.0


From 6da7bc85645c015fa7e6e0a0828b30488de25cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:33 +0000
Subject: [PATCH 60/66] fix: Make the option to force Unicode strings work

The encoding was always Windows-1252. vfb2tth keeps this encoding.
---
 src/vfbLib/tth.py       |  1 -
 src/vfbLib/vfb/entry.py | 10 ++++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index c886912..45fab58 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -49,7 +49,6 @@ def vfb2tth():
             vfb_path,
             only_header=False,
             minimal=True,
-            unicode_strings=True,
         )
         suffix = f".tth.{args.format}"
         if args.path:
diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 7a115fa..12780f4 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -203,7 +203,10 @@ class VfbEntry(StreamReader):
 
         self.merge_masters_data()
 
-        self.data = self.compiler().compile(self.data, vfb=self.vfb)
+        compiler = self.compiler()
+        if self.vfb.force_unicode_strings:
+            compiler.encoding = "utf-8"
+        self.data = compiler.compile(self.data, vfb=self.vfb)
 
         # TODO: Return False here if compilation has failed. How to tell?
 
@@ -226,7 +229,10 @@ class VfbEntry(StreamReader):
         byte_data = self.data
 
         try:
-            self.data = self.parser().parse(BytesIO(byte_data), self.size, self.vfb)
+            parser = self.parser()
+            if self.vfb.force_unicode_strings:
+                parser.encoding = "utf-8"
+            self.data = parser.parse(BytesIO(byte_data), self.size, self.vfb)
         except:  # noqa: E722
             logger.error(f"Parse error for data: {self.key}; {hexStr(byte_data)}")
             logger.error(f"Parser class: {self.parser.__name__}")
-- 
2.43.0


From b3d4540ee8adff597819b855c0b9d908a3c26ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:01 +0000
Subject: [PATCH 61/66] fix: Keep the kerning groups when they are added to the
 feature code

They were removed from the groups, but are needed by the kerning.
---
 src/vfbLib/ufo/builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index aba1b78..fb0f36b 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -874,7 +874,9 @@ class VfbToUfoBuilder:
                 continue
 
             self.ufo_features.text += f"@{name} = [{' '.join(glyphs)}];\n"
-            move_groups.add(name)
+            if not name.startswith("public.kern"):
+                # Kerning groups are also needed in groups.plist
+                move_groups.add(name)
 
         if self.move_groups_to_fea:
             # Remove groups that were added to the feature code from the groups dict
-- 
2.43.0


From 0cff936f813c80dd4b90dad43bcfcb957d33f692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 62/66] fix: Remove the TrueType commands with the contours of
 a glyph

The commands refer to the nodes that are removed.
---
 src/vfbLib/vfb/glyph.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index ec35fc5..1fff2c3 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -58,10 +58,9 @@ class VfbGlyph:
         return self.entry.data.get("name")
 
     def clearContours(self):
-        try:
-            del self.entry.data["hints"]
-        except KeyError:
-            pass
+        # Hints and TrueType commands refer to the nodes
+        for key in ("hints", "tth"):
+            self.entry.data.pop(key, None)
         self.entry.data["nodes"] = []
 
     # Native methods
@@ -451,10 +450,8 @@ class VfbGlyphMaster:
                     {} for _ in range(self.glyph._parent.num_masters)
                 ]
             target = self.entry.temp_masters[self.master_index]
-        try:
-            del target["hints"]
-        except KeyError:
-            pass
+        for key in ("hints", "tth"):
+            target.pop(key, None)
         target["nodes"] = []
 
     def drawPoints(self, pen: AbstractPointPen) -> None:
-- 
2.43.0


From dc0bcde8381ad1c372cc0085738ec9baaf7da9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:10 +0000
Subject: [PATCH 63/66] fix: Keep the feature code in build_fea_dict when there
 are no features

---
 src/vfbLib/parsers/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index a283ace..f9a550d 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -80,8 +80,12 @@ class OpenTypeStringParser(BaseParser):
             else:
                 feature.append(line)
 
-        # Flush the last feature
-        fea["features"].append({"tag": tag, "code": feature})
+        if in_prefix:
+            # There are no features
+            fea["prefix"] = prefix
+        else:
+            # Flush the last feature
+            fea["features"].append({"tag": tag, "code": feature})
 
         return fea
 
-- 
2.43.0


From 00252064d1558bb45f6ffdf6210da3be00313b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:53 +0000
Subject: [PATCH 64/66] fix: Encoded values that are cut off at the end of the
 data are reported, not made up

---
 src/vfbLib/parsers/value.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/parsers/value.py b/src/vfbLib/parsers/value.py
index c6e507a..fc5f76e 100644
--- a/src/vfbLib/parsers/value.py
+++ b/src/vfbLib/parsers/value.py
@@ -6,6 +6,13 @@ if TYPE_CHECKING:
     from io import BufferedIOBase, BytesIO
 
 
+def _read_bytes(stream: "BufferedIOBase", size: int) -> bytes:
+    data = stream.read(size)
+    if len(data) < size:
+        raise ValueError("The stream ends inside of an encoded value")
+    return data
+
+
 def read_value(stream: "BufferedIOBase", signed=True) -> int:
     """
     Read an encoded value from the stream, decode it to integer and return it.
@@ -22,6 +29,7 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
     Raises:
         EOFError: When a 0 byte is encountered while reading the stream.
         ValueError: When the byte that was read from the stream is < 0x20.
+        ValueError: When the stream ends inside of the value.
         ValueError: When the byte that was read from the stream has any other undefined
             value.
 
@@ -41,13 +49,13 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
 
     elif val <= 0xFA:
         # 108 to 1131, represented by 2 bytes
-        val2 = int.from_bytes(stream.read(int8_size), byteorder="little")
+        val2 = int.from_bytes(_read_bytes(stream, int8_size), byteorder="little")
         # val - 0x8B + (val - 0xF7) * 0xFF + val2
         return 0x100 * val - 0xF694 + val2
 
     elif val <= 0xFE:
         # -108 to -1131, represented by 2 bytes
-        val2 = int.from_bytes(stream.read(int8_size), byteorder="little")
+        val2 = int.from_bytes(_read_bytes(stream, int8_size), byteorder="little")
         # 0x8F - val - (val - 0xFB) * 0xFF - val2
         return -0x100 * val + 0xFA94 - val2
 
@@ -55,7 +63,7 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
         # 32 bit integer follows
         # FIXME: The Type1 spec says that it is always a signed int.
         decoded = int.from_bytes(
-            stream.read(int32_size), byteorder="big", signed=signed
+            _read_bytes(stream, int32_size), byteorder="big", signed=signed
         )
         return decoded
 
-- 
2.43.0


From ec13ebd50daac4f392855ac08cc70056146b412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:06 +0000
Subject: [PATCH 65/66] fix: Fixed-size integers that are cut off at the end of
 the data are reported, not made up

---
 src/vfbLib/parsers/base.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/vfbLib/parsers/base.py b/src/vfbLib/parsers/base.py
index c0b2fe2..b4cfe23 100644
--- a/src/vfbLib/parsers/base.py
+++ b/src/vfbLib/parsers/base.py
@@ -37,6 +37,12 @@ class StreamReader:
         self.encoding = "cp1252"
         self.stream: "BufferedIOBase" = BytesIO()
 
+    def _read_exactly(self, size: int) -> bytes:
+        data = self.stream.read(size)
+        if len(data) < size:
+            raise EOFError
+        return data
+
     def read_double(self) -> float:
         """
         Return a double-precision float from the stream.
@@ -66,7 +72,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int8_size), byteorder="little", signed=True
+            self._read_exactly(int8_size), byteorder="little", signed=True
         )
 
     def read_int16(self) -> int:
@@ -77,7 +83,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int16_size), byteorder="little", signed=True
+            self._read_exactly(int16_size), byteorder="little", signed=True
         )
 
     def read_int32(self) -> int:
@@ -88,7 +94,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int32_size), byteorder="little", signed=True
+            self._read_exactly(int32_size), byteorder="little", signed=True
         )
 
     def read_str(self, size: int) -> str:
@@ -135,7 +141,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int8_size), byteorder="little", signed=False
+            self._read_exactly(int8_size), byteorder="little", signed=False
         )
 
     def read_uint16(self) -> int:
@@ -146,7 +152,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int16_size), byteorder="little", signed=False
+            self._read_exactly(int16_size), byteorder="little", signed=False
         )
 
     def read_uint32(self) -> int:
@@ -157,7 +163,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int32_size), byteorder="little", signed=False
+            self._read_exactly(int32_size), byteorder="little", signed=False
         )
 
     def read_value(self, signed: bool = True) -> int:
-- 
2.43.0


From ea1372e2bc52a7d8b803a659edaa23db0417c2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:41 +0000
Subject: [PATCH 66/66] fix: Quadratic off-curve points before a cubic curve
 affected the following segment when drawing

---
 src/vfbLib/vfb/glyph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 1fff2c3..fe82215 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -248,9 +248,11 @@ class VfbGlyph:
                 else:
                     pen.lineTo(pt)
             elif node_type == "curve":
-                # FIXME: What about mixed curve/qcurve?
                 pt, c1, c2 = n["points"][self.master_index]
-                pen.curveTo(c1, c2, pt)
+                # Keep any preceding off-curve points
+                pen.curveTo(*qcurve, c1, c2, pt)
+                in_qcurve = False
+                qcurve = []
             elif node_type == "qcurve":
                 if not in_qcurve:
                     in_qcurve = True
@@ -342,6 +344,7 @@ class VfbGlyph:
                 contour.append((pt1, None))
                 contour.append((pt2, None))
                 contour.append((pt3, "curve"))
+                in_qcurve = False
             elif node_type == "qcurve":
                 if not in_qcurve:
                     in_qcurve = True
-- 
2.43.0

