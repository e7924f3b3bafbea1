From 6da325836cdf4ec21fe24d7052fd3d582c5afb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 01/35] fix: do not count a line when FileWrapper reaches the
 end of the file

---
 castep_outputs/utilities/filewrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index 97a93cd..2139a0b 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -33,11 +33,11 @@ class FileWrapper:
         return self
 
     def __next__(self) -> str:
-        self._lineno += 1
         self._pos = self.file.tell()
         nextline = self.file.readline()
         if not nextline:
             raise StopIteration
+        self._lineno += 1
         return nextline
 
     def rewind(self) -> None:
-- 
2.43.0


From 566f2e3a0650063fdc6981d8abac0ab1d6bb452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 02/35] fix: accept a sign in front of a ratio

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 00da67e..92ce6cd 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -209,7 +209,7 @@ EXPFNUMBER_RE = f"(?:{EXPNUMBER_RE}|{FNUMBER_RE})"
 #: Integer ratio.
 #:
 #: :meta hide-value:
-RATIONAL_RE = rf"\b{INTNUMBER_RE}/{INTNUMBER_RE}\b"
+RATIONAL_RE = rf"[+-]?\b(?<!\.)\d+/{INTNUMBER_RE}\b"
 
 #: Generalised number.
 #:
-- 
2.43.0


From f195f6d32b5b0120aa139fcf4bdf9d79c01ca14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 03/35] fix: infer a type every item of the value can be
 converted to

---
 castep_outputs/utilities/type_conv.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/castep_outputs/utilities/type_conv.py b/castep_outputs/utilities/type_conv.py
index f18b914..7bea9b1 100644
--- a/castep_outputs/utilities/type_conv.py
+++ b/castep_outputs/utilities/type_conv.py
@@ -87,15 +87,13 @@ def determine_type(data: str) -> type:
     if data.title() in {"T", "True", "F", "False"}:
         return bool
 
-    if re.match(rf"(?:\s*{REs.EXPFNUMBER_RE})+", data):
-        return float
+    if re.fullmatch(rf"\s*{REs.INTNUMBER_RE}(?:\s+{REs.INTNUMBER_RE})*\s*", data):
+        return int
 
-    if re.match(rf"(?:\s*{REs.RATIONAL_RE})+", data):
+    number = REs.FLOAT_RAT_RE.pattern
+    if re.fullmatch(rf"\s*{number}(?:\s+{number})*\s*", data):
         return float
 
-    if re.match(rf"(?:\s*{REs.INTNUMBER_RE})+", data):
-        return int
-
     return str
 
 
-- 
2.43.0


From a9c33c462ba5adce38b9aff25a6aeadec5d3403e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 04/35] fix: use the given separator below sequences when
 flattening

---
 castep_outputs/utilities/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index 7e920d8..ceb67e3 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -325,7 +325,7 @@ def flatten_dict(
             items.extend(flatten_dict(value, new_key, separator).items())
         elif isinstance(value, (list, tuple)):
             for keyx, val in enumerate(value):
-                items.extend(flatten_dict({str(keyx): val}, new_key).items())
+                items.extend(flatten_dict({str(keyx): val}, new_key, separator).items())
         else:
             items.append((new_key, value))
     return dict(items)
-- 
2.43.0


From f7debd506adbbca4905ee141630d9679b7c7e067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 05/35] fix: keep a zero key in the paths of a flattened
 dictionary

---
 castep_outputs/utilities/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index ceb67e3..3346377 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -320,7 +320,7 @@ def flatten_dict(
     items: list[tuple[Any, Any]] = []
     for key, value in dictionary.items():
         # Temporary hack because `None` used as key in species_pot
-        new_key = f"{parent_key}{separator}{key}" if parent_key else key
+        new_key = f"{parent_key}{separator}{key}" if parent_key not in {"", None} else key
         if isinstance(value, collections.abc.MutableMapping):
             items.extend(flatten_dict(value, new_key, separator).items())
         elif isinstance(value, (list, tuple)):
-- 
2.43.0


From ceb8c0c4f2c367a1b34a6def039158ec486ea03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 06/35] fix: take comment marks literally

---
 castep_outputs/utilities/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index 3346377..9c2e4b3 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -479,7 +479,7 @@ def _strip_inline_comments(
     >>> '|'.join(_strip_inline_comments(inp, comment_char={"#",}))
     'Hello|End of line'
     """
-    comment_re = re.compile(f"({'|'.join(comment_char)})")
+    comment_re = re.compile(f"({'|'.join(map(re.escape, comment_char))})")
 
     for line in data:
         line = comment_re.split(line)[0].rstrip()
@@ -526,7 +526,7 @@ def _strip_initial_comments(
     >>> '|'.join(_strip_initial_comments(inp, comment_char={"#",}))
     'Hello|End of line # comment'
     """
-    comment_re = re.compile(rf"^\s*({'|'.join(comment_char)})")
+    comment_re = re.compile(rf"^\s*({'|'.join(map(re.escape, comment_char))})")
     out = cast("Iterable[str]", filterfalse(comment_re.match, data))
     out = map(str.rstrip, out)
     out = filter(None, out)
-- 
2.43.0


From 971be259a6ecb432690e4a52330ee96ef3cf8f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 07/35] fix: separate the volumes of a cst_esp file with one x
 plane

---
 castep_outputs/bin_parsers/cst_esp_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/bin_parsers/cst_esp_file_parser.py b/castep_outputs/bin_parsers/cst_esp_file_parser.py
index 374ac38..328956f 100644
--- a/castep_outputs/bin_parsers/cst_esp_file_parser.py
+++ b/castep_outputs/bin_parsers/cst_esp_file_parser.py
@@ -47,7 +47,7 @@ def parse_cst_esp_file(cst_esp_file: BinaryIO) -> ESPData:
     accum["esp"] = []
     for datum in reader:
         nx, _ny = parse_bytes(datum[:8], (int, ...))
-        if prev_nx != nx and curr:
+        if curr and (prev_nx != nx or len(curr) == accum["grid"][1]):
             accum["esp"].append(curr)
             curr = []
         curr.append(parse_bytes(datum[8:], (complex, ...)))
-- 
2.43.0


From 5d44bd36faaac96499925b6e0f7fe32ba2cafbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 08/35] fix: end a trajectory frame at any blank line, so that
 files with '  ' separators (as CASTEP prints) are not merged into one frame

---
 castep_outputs/parsers/md_geom_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/md_geom_file_parser.py b/castep_outputs/parsers/md_geom_file_parser.py
index a6ed344..31082fb 100644
--- a/castep_outputs/parsers/md_geom_file_parser.py
+++ b/castep_outputs/parsers/md_geom_file_parser.py
@@ -5,7 +5,7 @@ from __future__ import annotations
 from collections import defaultdict
 from typing import TextIO, TypedDict
 
-from castep_outputs.utilities.castep_res import ATOMIC_DATA_TAG, TAG_RE, get_numbers
+from castep_outputs.utilities.castep_res import ATOMIC_DATA_TAG, EMPTY, TAG_RE, get_numbers
 from castep_outputs.utilities.constants import FST_D, TAG_ALIASES
 from castep_outputs.utilities.datatypes import AtomIndex, ThreeByThreeMatrix, ThreeVector
 from castep_outputs.utilities.filewrapper import Block, FileWrapper
@@ -171,7 +171,7 @@ def parse_md_geom_file(md_geom_file: TextIO | FileWrapper | Block) -> list[MDGeo
     _comment = parse_header(md_geom_file)
 
     steps = []
-    while block := Block.from_re("", md_geom_file, "", "^$", eof_possible=True):
+    while block := Block.from_re("", md_geom_file, "", EMPTY, eof_possible=True):
         steps.append(parse_md_geom_frame(block))
 
     if not steps:
-- 
2.43.0


From 1fcaff8e7d174413bde89d44bc0d8cddfae89211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 09/35] fix: the TSTYPE line of a transition-state file is not
 an image, so files of searches other than a confirmation can be parsed

---
 castep_outputs/parsers/ts_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/ts_file_parser.py b/castep_outputs/parsers/ts_file_parser.py
index 37407a9..b4c097b 100644
--- a/castep_outputs/parsers/ts_file_parser.py
+++ b/castep_outputs/parsers/ts_file_parser.py
@@ -72,7 +72,7 @@ def parse_ts_file(ts_file: TextIO) -> TSFileInfo:
         if "TSConfirmation" in line:
             accum["confirmation"] = True
 
-        elif block := Block.from_re(line, ts_file, "(REA|PRO|TST)", r"^\s*$", eof_possible=True):
+        elif block := Block.from_re(line, ts_file, r"\b(REA|PRO|TST)\b", r"^\s*$", eof_possible=True):
             curr = defaultdict(list)
             match = re.match(r"\s*(?P<type>REA|PRO|TST)\s*\d+\s*" +
                              labelled_floats(("reaction_coordinate",)), line)
-- 
2.43.0


From 194f4b042187dab13ef789e645260f0a202f89ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 10/35] fix: keep ionic constraints numbered 10 and above

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 92ce6cd..872e4e0 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -611,7 +611,7 @@ PARAM_VALUE_RE = re.compile(
     re.IGNORECASE | re.VERBOSE,
 )
 
-IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d\s+{ATOM_RE}{THREEVEC_RE}")
+IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d+\s+{ATOM_RE}{THREEVEC_RE}")
 POSITIONS_LINE_RE = re.compile(
     rf"^\s*(?P<spec>{SPECIES_RE})"
     rf"(?P<pos>(?:\s+{FLOAT_RAT_RE.pattern}){{3}})",
-- 
2.43.0


From d8282c314a78426c06ef08c9cd66b50bcb810027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 11/35] fix: read cell/param keywords containing digits

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 872e4e0..9ec5f58 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -599,7 +599,7 @@ DEVEL_CODE_BLOCK_GENERIC_RE = r"([A-Za-z0-9_]+):(?:.*):end\1"
 
 PARAM_VALUE_RE = re.compile(
     rf"""
-^\s*(?P<key>[a-z_]+)
+^\s*(?P<key>[a-z_]\w*)
 \s*[ \t:=]\s*
     (?:(?P<val>(?:\s*{NUMBER_RE.pattern})+)|
     # String starts with anything which is NOT digit,+,-,. or space.
-- 
2.43.0


From 843a84f9b683ea83b9a6fa16a8e50e85a3015f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 12/35] fix: read positions of species with a tag

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 9ec5f58..51d50fd 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -613,7 +613,7 @@ PARAM_VALUE_RE = re.compile(
 
 IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d+\s+{ATOM_RE}{THREEVEC_RE}")
 POSITIONS_LINE_RE = re.compile(
-    rf"^\s*(?P<spec>{SPECIES_RE})"
+    rf"^\s*(?P<spec>{SPECIES_RE}(?::\w+)?)"
     rf"(?P<pos>(?:\s+{FLOAT_RAT_RE.pattern}){{3}})",
 )
 POSITIONS_SPIN_RE = re.compile(
-- 
2.43.0


From 269a91c426fcbc1c275ac9de438c8ba6b8d8f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 13/35] fix: keep units of intermediate and product absolute
 positions

---
 castep_outputs/parsers/cell_param_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index c6ffb76..2caaf82 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -714,8 +714,8 @@ _PARSERS: dict[str, Callable] = {
     "positions_frac_intermediate": _parse_positions,
     "positions_frac_product": _parse_positions,
     "positions_abs": _parse_positions_abs,
-    "positions_abs_intermediate": _parse_positions,
-    "positions_abs_product": _parse_positions,
+    "positions_abs_intermediate": _parse_positions_abs,
+    "positions_abs_product": _parse_positions_abs,
     "positions_aspectral_intermediate": _parse_positions,
     "positions_aspectral_product": _parse_positions,
     "species_pot": _parse_species_pot,
-- 
2.43.0


From a99d195d7f7b82c672d5d577ba67afa7c93674bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 14/35] fix: keep the first row of an SEDC block without units

---
 castep_outputs/parsers/cell_param_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 2caaf82..7273f99 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -550,7 +550,7 @@ def _parse_sedc(block: Block) -> dict[str, dict[str, float]]:
     accum = {}
 
     test = next(block)
-    if len(units := test.split()) == 2:
+    if len(units := test.split()) == 2 and ":" not in test:
         units = tuple(units)
     else:
         block.rewind()
-- 
2.43.0


From cf3ffc32d73e6251c481f64b2459de6f7ebc02f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 15/35] fix: accept any blanks between a parameter's value and
 its unit

---
 castep_outputs/utilities/castep_res.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 51d50fd..7585d23 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -601,11 +601,11 @@ PARAM_VALUE_RE = re.compile(
     rf"""
 ^\s*(?P<key>[a-z_]\w*)
 \s*[ \t:=]\s*
-    (?:(?P<val>(?:\s*{NUMBER_RE.pattern})+)|
+    (?:(?P<val>{NUMBER_RE.pattern}(?:\s+{NUMBER_RE.pattern})*)|
     # String starts with anything which is NOT digit,+,-,. or space.
     (?P<str>[^-+\d\s.](?:\s*\S+)*))
     # If numeric value, chance of unit
-    (?(val)(?P<unit>\s\S+)?)
+    (?(val)(?P<unit>\s+\S+)?)
 \s*$
 """,
     re.IGNORECASE | re.VERBOSE,
-- 
2.43.0


From 291b4a6d121911f395367b9dd1a31249be7a873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 16/35] fix: do not take an atom's tag for its spin

---
 castep_outputs/parsers/cell_param_file_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 7273f99..6073009 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -485,6 +485,7 @@ def _parse_positions(block: Block, *, absolute: bool = False) -> dict[AtomIndex,
             count[spec] += 1
             ind = (spec, count[spec])
             pos = to_type(match["pos"].split(), float)
+            line = line[match.end() :]
 
             info: PositionsInfo = {"pos": pos}
             if absolute:
-- 
2.43.0


From b55122c7a836cb4398f8fd902fe11f82b3e82755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 17/35] fix: keep Hubbard U keys that contain the species'
 symbol

---
 castep_outputs/parsers/cell_param_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 6073009..9ca6a68 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -525,7 +525,7 @@ def _parse_hubbard_u(block: Block) -> HubbardU:
 
         if match := re.match(rf"^\s*({REs.ATOM_NAME_RE})\s*(\d+)?", line):
             spec = (match[1], int(match[2])) if match.lastindex == 2 else match[1]
-            line = line.replace(match[0], "")
+            line = line[match.end():]
             accum[spec] = {
                 key: to_type(val, determine_type(val))
                 for key, val in REs.COLON_SEP_RE.findall(line)
-- 
2.43.0


From adce929d10b20855b6ee8c57a361bc4917fd66d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 18/35] fix: parse_single finds binary parsers by name

---
 castep_outputs/cli/castep_outputs_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/cli/castep_outputs_main.py b/castep_outputs/cli/castep_outputs_main.py
index 7f7417e..beece49 100644
--- a/castep_outputs/cli/castep_outputs_main.py
+++ b/castep_outputs/cli/castep_outputs_main.py
@@ -63,7 +63,7 @@ def parse_single(in_file: str | Path | TextIO,
         in_file = Path(in_file)
 
     if isinstance(parser, str):
-        parser = PARSERS.get(parser)
+        parser = ALL_PARSERS.get(parser)
 
     if parser is None and isinstance(in_file, Path):
         ext = in_file.suffix.strip(".")
-- 
2.43.0


From f247c056fb85aceaf00628957d14b577cf04ae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 19/35] fix: find a seed's .err files when the seed names a
 directory

---
 castep_outputs/cli/args.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index 232b4af..77bb8d5 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 
 import argparse
 from collections.abc import Sequence
+from glob import escape
 from pathlib import Path
 
 from castep_outputs import __version__
@@ -102,7 +103,7 @@ def parse_args(to_parse: Sequence[str] = ()) -> argparse.Namespace:
                 if getattr(args, f"inc_{typ}") and trial.is_file():
                     getattr(args, typ).append(str(trial))
 
-            if args.inc_err and (err_files := seed.parent.glob(f"{seed}.*.err")):
+            if args.inc_err and (err_files := seed.parent.glob(f"{escape(seed.name)}.*.err")):
                 args.err.extend(map(str, err_files))
 
     return args
-- 
2.43.0


From 4f049e02ea58f3ce922730e6bc66c27c3eda3f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 20/35] fix: expand seeds containing a dot to their own files

---
 castep_outputs/cli/args.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index 77bb8d5..044ff7e 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -99,7 +99,7 @@ def parse_args(to_parse: Sequence[str] = ()) -> argparse.Namespace:
             getattr(args, ext).append(str(seed))
         else:
             for typ in ALL_NAMES:
-                trial = seed.with_suffix(f".{typ}")
+                trial = seed.with_name(f"{seed.name}.{typ}")
                 if getattr(args, f"inc_{typ}") and trial.is_file():
                     getattr(args, typ).append(str(trial))
 
-- 
2.43.0


From 890a76cdeaf4c02543dff69f0770fb7838a96c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 21/35] fix: ignore the letter case of geom_method and
 md_ensemble

---
 castep_outputs/tools/get_generated_files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index c821da7..a818655 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -522,7 +522,7 @@ def _get_generated_files(
     elif task is Task.GEOMOPT:
         if param_data.get("write_geom", True):
             out_files.add(f"{seedname}.geom")
-        if param_data.get("geom_method") == "pes":
+        if param_data.get("geom_method", "").lower() == "pes":
             out_files.add(f"{seedname}.pes")
     elif task is Task.SPECTRAL:
         out_files |= get_spectral_files(
@@ -533,7 +533,7 @@ def _get_generated_files(
     elif task is Task.MD:
         if param_data.get("write_md", True):
             out_files.add(f"{seedname}.md")
-        if param_data.get("md_ensemble") in {"nvhug", "nphug"}:
+        if param_data.get("md_ensemble", "").lower() in {"nvhug", "nphug"}:
             out_files.add(f"{seedname}.hug")
 
         extrap = param_data.get("md_extrap", "first").lower()
-- 
2.43.0


From 1f084b23bf8d4d3204c2c139a80e1b1193f62bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 22/35] fix: name generated potentials independently of the
 hash order of the functionals

---
 castep_outputs/tools/get_generated_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index a818655..91aa4fc 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -469,7 +469,7 @@ def _get_generated_files(
         elif xc & {"libxc_gga", "libxc_hyb_gga"}:
             theory = "PBE"
         else:
-            theory = XC_TO_PS_THEORY.get(next(iter(xc)), "LDA")
+            theory = next((XC_TO_PS_THEORY[func] for func in sorted(xc) if func in XC_TO_PS_THEORY), "LDA")
 
         otf_name = f"{spec}_EXT_{theory}_OTF"
 
-- 
2.43.0


From 2db3a0355b33ee3aabfc07ec98c1e9d591cd7aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 23/35] fix: predict the files of a seed containing a dot under
 its own name

---
 castep_outputs/tools/get_generated_files.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index 91aa4fc..51889c4 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -288,17 +288,19 @@ def get_generated_files(
     May struggle to get exact information from complex xc_definitions.
     """
     seedname = Path(seedname)
+    if seedname.suffix in {".cell", ".param"}:
+        seedname = seedname.with_suffix("")
     if param_file is None:
-        param_file = seedname.with_suffix(".param")
+        param_file = seedname.with_name(f"{seedname.name}.param")
     if cell_file is None:
-        cell_file = seedname.with_suffix(".cell")
+        cell_file = seedname.with_name(f"{seedname.name}.cell")
 
     if param_data is None:
         param_data = parse_cell_param_file(param_file)[0] if param_file.exists() else {}
     if cell_data is None:
         cell_data = parse_cell_param_file(cell_file)[0] if cell_file.exists() else {}
 
-    return _get_generated_files(param_data, cell_data, seedname.with_suffix(""))
+    return _get_generated_files(param_data, cell_data, seedname)
 
 
 def _get_generated_files(
@@ -309,7 +311,7 @@ def _get_generated_files(
     if cell_data is None:
         cell_data = {}
 
-    seedname = Path(src).stem
+    seedname = Path(src).name
     param_data = deepcopy(param_data)
     devel_code = param_data.get("devel_code", {})
     raw_task = param_data.get("task", "SINGLEPOINT").upper()
-- 
2.43.0


From 53ac8230789d45f49ced9d8f041596de63da734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 24/35] fix: recognise a task spelled with blanks when choosing
 its files

---
 castep_outputs/tools/get_generated_files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index 51889c4..a1ba759 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -151,7 +151,7 @@ def get_spectral_files(
     """
     out_files = set()
     devel_code = param_data.get("devel_code", {})
-    raw_task = param_data.get("task", "SINGLEPOINT").upper()
+    raw_task = param_data.get("task", "SINGLEPOINT").translate(TRANS_TABLE)
     spectral_theory = SpectralTheory(param_data.get("spectral_theory", "dft"))
     spectral_task = SpectralTask(param_data.get("spectral_task", "bandstructure"))
 
@@ -314,7 +314,7 @@ def _get_generated_files(
     seedname = Path(src).name
     param_data = deepcopy(param_data)
     devel_code = param_data.get("devel_code", {})
-    raw_task = param_data.get("task", "SINGLEPOINT").upper()
+    raw_task = param_data.get("task", "SINGLEPOINT").translate(TRANS_TABLE)
     task = Task(raw_task)
 
     xc = get_xc_info(param_data)
-- 
2.43.0


From 3dd18331cac5d3edd8dcee6d9ef73b6290a404b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:53 +0000
Subject: [PATCH 25/35] fix: keep a printed spin of 0.00 in the bond table

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 94b612d..926e993 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2273,7 +2273,7 @@ def _process_bond_analysis(block: Block) -> BondData:
              if (match := REs.BOND_RE.match(line))}
 
     for val in accum.values():
-        if not val["spin"]:
+        if val["spin"] is None:
             del val["spin"]
 
     return accum
-- 
2.43.0


From c26f33d3343206b7e10c1811e91d874faf4d8792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:53 +0000
Subject: [PATCH 26/35] fix: read k-points numbered 10 and above from the
 k-points list

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 926e993..684ed7a 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2109,7 +2109,7 @@ def _process_kpoint_blocks(block: Block, *,
             elif "Number of kpoints" in line:
                 accum["num_kpoints"] = to_type(get_numbers(line)[0], int)
     else:
-        kp_block_re = re.compile(gen_table_re(r"\d\s*" + labelled_floats(("qx", "qy", "qz", "wt")),
+        kp_block_re = re.compile(gen_table_re(r"\d+\s*" + labelled_floats(("qx", "qy", "qz", "wt")),
                                               r"\+"))
         accum: KPointsList = {"points": [{"qpt": to_type(match.group("qx", "qy", "qx"), float),
                                           "weight": to_type(match["wt"], float)}
-- 
2.43.0


From 9c031516ae674b19bcfc36a50f3d8d1f8c191048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:18 +0000
Subject: [PATCH 27/35] fix: read SCF tables without a Fermi energy column
 (fixed occupancies)

---
 castep_outputs/parsers/castep_file_parser.py | 4 +++-
 castep_outputs/utilities/castep_res.py       | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 684ed7a..a6ae6eb 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1709,8 +1709,10 @@ def _process_scf(block: Block) -> list[SCFReport]:
     scf = []
     curr: SCFReport = {}
     debug_info: SCFDebugInfo = {}
+    # No Fermi energy column with fixed occupancies
+    loop_re = REs.SCF_LOOP_RE if "Fermi" in next(block) else REs.SCF_LOOP_FIXED_RE
     for line in block:
-        if match := REs.SCF_LOOP_RE.match(line):
+        if match := loop_re.match(line):
             if curr:
                 scf.append(curr)
 
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 7585d23..b6620b6 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -298,6 +298,11 @@ SCF_LOOP_RE = re.compile(
     rf"{labelled_floats(('energy', 'fermi_energy', 'energy_gain'))}?\s*"
     f"{labelled_floats(('time',))}",
 )
+SCF_LOOP_FIXED_RE = re.compile(
+    r"\s*(?:Initial|\d+)\s*"
+    rf"{labelled_floats(('energy', 'energy_gain'))}?\s*"
+    f"{labelled_floats(('time',))}",
+)
 
 # Spin density
 INTEGRATED_SPIN_DENSITY_RE = re.compile(
-- 
2.43.0


From 9b6117e00616447686477c6a7b53fedb590902d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:40 +0000
Subject: [PATCH 28/35] fix: give every run's energies as tuples, not only the
 last run's

---
 castep_outputs/parsers/castep_file_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index a6ae6eb..7663d7e 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -207,6 +207,8 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
                                   REs.EMPTY):
 
             if curr_run:
+                fix_data_types(curr_run, {"energies": float,
+                                          "solvation": float})
                 runs.append(curr_run)
             logger("Found run %s", len(runs) + 1)
             curr_run = defaultdict(list)
-- 
2.43.0


From 145cd667ed54d0bea93e04a602ab1885c76d2f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:40 +0000
Subject: [PATCH 29/35] fix: read the whole final configuration when
 FINAL_CONFIG is selected without GEOM_OPT

---
 castep_outputs/parsers/castep_file_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 7663d7e..3d5bfdf 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1053,6 +1053,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             logger("Found final geom configuration")
 
+            curr_run.setdefault("geom_opt", defaultdict(list))
             curr_run["geom_opt"]["final_configuration"] = _process_final_config_block(block)
 
         elif block := Block.from_re(line, castep_file,
@@ -1114,7 +1115,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
                                f"(?P<value>{REs.EXPFNUMBER_RE}).*",
                                line, re.IGNORECASE):
 
-            if Filters.GEOM_OPT not in to_parse:
+            if Filters.GEOM_OPT not in to_parse and Filters.FINAL_CONFIG not in to_parse:
                 continue
 
             key, val = normalise_string(match["key"]).lower(), to_type(match["value"], float)
-- 
2.43.0


From 6b93e9a00851c7ebca3a1d8900743c13727a8a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:40 +0000
Subject: [PATCH 30/35] fix: leave out trial guesses unless GEOM_OPT is
 selected

---
 castep_outputs/parsers/castep_file_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 3d5bfdf..98888f4 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1106,6 +1106,9 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
         elif match := re.search(rf"trial guess \(lambda=\s*({REs.EXPFNUMBER_RE})\)", line):
 
+            if Filters.GEOM_OPT not in to_parse:
+                continue
+
             curr_run.setdefault("geom_opt", defaultdict(list))
 
             curr_run["geom_opt"]["trial"].append(float(match.group(1)))
-- 
2.43.0


From 86a490980351a391d4a7d0983d5868fa923ec348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:40 +0000
Subject: [PATCH 31/35] fix: leave out the memory estimate of an MD step unless
 SYS_INFO is selected

---
 castep_outputs/parsers/castep_file_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 98888f4..c88e68b 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1027,8 +1027,9 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
                         replace=True)
 
             # Put memory estimate to top level
-            if "memory_estimate" in data:
-                curr_run["memory_estimate"] = data.pop("memory_estimate")
+            if memory_estimate := data.pop("memory_estimate", None):
+                if Filters.SYS_INFO in to_parse:
+                    curr_run["memory_estimate"] = memory_estimate
 
             curr_run["md"].append(data)
 
-- 
2.43.0


From fa9c3716b7f4f35a647777daa11e14518b1d6fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:40 +0000
Subject: [PATCH 32/35] fix: skip the title's text when PARAMETERS is not
 selected

---
 castep_outputs/parsers/castep_file_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index c88e68b..9c89126 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -306,12 +306,14 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
         # Title
         elif re.match(gen_table_re("Title", r"\*+"), line):
 
+            title = next(castep_file)
+
             if Filters.PARAMETERS not in to_parse:
                 continue
 
             logger("Found title")
 
-            curr_run["title"] = next(castep_file).strip()
+            curr_run["title"] = title.strip()
 
         # Parameters
         elif block := Block.from_re(line, castep_file,
-- 
2.43.0


From b40aae44f3530b2ae494ed121a0007e31e5fa3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:00 +0000
Subject: [PATCH 33/35] fix: do not lose the line after a one-line warning

---
 castep_outputs/parsers/castep_file_parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 9c89126..529cfbf 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -282,10 +282,9 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             warn = line.strip()
 
-            for tst, line in enumerate(castep_file):
+            for line in castep_file:
                 if not line.strip() or not re.match(match.group(1) + r"\s+", line):
-                    if tst:
-                        castep_file.rewind()
+                    castep_file.rewind()
                     break
                 warn += " " + line.strip()
 
-- 
2.43.0


From 7e2f0e42ebe02ee7037fb44c19efff51481d5754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:00 +0000
Subject: [PATCH 34/35] fix: skip a warning's continuation lines when SYS_INFO
 is not selected

---
 castep_outputs/parsers/castep_file_parser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 529cfbf..590c81a 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -275,11 +275,6 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
         elif match := re.match(r"(?:\s*[^:]+:)?(\s*)warning", line, re.IGNORECASE):
 
-            if Filters.SYS_INFO not in to_parse:
-                continue
-
-            logger("Found warning")
-
             warn = line.strip()
 
             for line in castep_file:
@@ -288,6 +283,11 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
                     break
                 warn += " " + line.strip()
 
+            if Filters.SYS_INFO not in to_parse:
+                continue
+
+            logger("Found warning")
+
             curr_run["warning"].append(warn)
 
         # Memory estimate
-- 
2.43.0


From d2318e9b4bf224b952f26a9c004846f40c115a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:37 +0000
Subject: [PATCH 35/35] fix: go on from the frame jumped to when it is counted
 from the end

---
 castep_outputs/tools/md_geom_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/tools/md_geom_parser.py b/castep_outputs/tools/md_geom_parser.py
index f26fa06..fbe2afc 100644
--- a/castep_outputs/tools/md_geom_parser.py
+++ b/castep_outputs/tools/md_geom_parser.py
@@ -150,7 +150,8 @@ While iteration should work, extracting particular frames may not.
             trial = yield self[i]
             i += 1
             if trial is not None:
-                i = trial
+                # Negative frames count from the end, iteration goes on from there.
+                i = trial + len(self) if trial in range(-len(self), 0) else trial
 
     def read_next(self) -> MDGeomTimestepInfo:
         """Get the next frame.
-- 
2.43.0

