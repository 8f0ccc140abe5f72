From 2eb7ae19827132d5cd95b2d140d99cde04c7ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:18 +0000
Subject: [PATCH 001/121] fix: find PVL label endings that straddle read chunks
 or end in a bare newline

---
 pdr/parselabel/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pdr/parselabel/utils.py b/pdr/parselabel/utils.py
index eec1151..2a5815d 100644
--- a/pdr/parselabel/utils.py
+++ b/pdr/parselabel/utils.py
@@ -6,9 +6,9 @@ from typing import Union, IO
 
 
 KNOWN_LABEL_ENDINGS = (
-    re.compile(b"\nEND {0,8}(\r| {8})"),  # common PVL convention
+    # common PVL convention, plus bare newlines (mostly for Chang'e labels)
+    re.compile(b"\nEND {0,8}(\r|\n| {8})"),
     re.compile(b"\x00{3}"),  # just null bytes, for odder cases
-    b"\nEND\n",  # mostly for Chang'e labels
 )
 """
 Fast regex patterns for generic PVL label endings. They work for almost all PVL 
@@ -31,10 +31,12 @@ def _scan_to_end_of_label(
     while length < max_size:
         if (chunk := buf.read(50 * 1024)) == b'':
             break
-        for ending in KNOWN_LABEL_ENDINGS:
-            if (endmatch := re.search(ending, chunk)) is not None:
-                return text + chunk[: endmatch.span()[1]]
+        # begin a bit before this chunk in case an ending straddles chunks
+        overlap_start = max(len(text) - 20, 0)
         text, length = text + chunk, length + 50 * 1024
+        for ending in KNOWN_LABEL_ENDINGS:
+            if (endmatch := ending.search(text, overlap_start)) is not None:
+                return text[: endmatch.end()]
     if raise_no_ending is True:
         raise InvalidAttachedLabel("Couldn't find a label ending.")
     return text
-- 
2.43.0


From 99c29edfe47966525f3ebe2a29223a7a877ae4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:47 +0000
Subject: [PATCH 002/121] fix: read 4-byte integer QUBEs with the width the
 label gives

---
 pdr/loaders/queries.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 154ad93..8ccf9d5 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -48,9 +48,8 @@ def generic_qube_properties(
     props = {}
     use_block = block if "CORE" not in block.keys() else block["CORE"]
     props["BYTES_PER_PIXEL"] = int(use_block["CORE_ITEM_BYTES"])  # / 8)
-    # TODO: this should probably have for_numpy set to True
     props["sample_type"] = sample_types(
-        use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"]
+        use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"], for_numpy=True
     )
     props["is_vax_real"] = use_block["CORE_ITEM_TYPE"] == "VAX_REAL"
     if "AXIS_NAME" in set(block.keys()).union(use_block.keys()):
-- 
2.43.0


From b0dd213a80c2272aa90227545e944d95c15733fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:47 +0000
Subject: [PATCH 003/121] fix: do not read past the end of BIL images with line
 pre/suffixes

---
 pdr/loaders/queries.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 8ccf9d5..c7d2725 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -189,10 +189,11 @@ def get_image_properties(gen_props: ImageProps) -> ImageProps:
     """
     props = gen_props  # TODO: what is this variable assignment for?
     check_fix_validity(props)
-    props["pixels"] = (
-        (props["nrows"] + props["rowpad"])
-        * (props["ncols"] + props["colpad"] + props["linepad"])
+    # line pre/suffixes occur only once per line, even in multiband images
+    props["pixels"] = (props["nrows"] + props["rowpad"]) * (
+        (props["ncols"] + props["colpad"])
         * (props["nbands"] + props["bandpad"])
+        + props["linepad"]
     )
     return props
 
-- 
2.43.0


From b790e254edd990f6c71797bd40144c5fd22c1efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 004/121] fix: read QUBEs with zero-size axplanes, or one band
 and backplanes

---
 pdr/loaders/image.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/image.py b/pdr/loaders/image.py
index 51fbb58..982ccee 100644
--- a/pdr/loaders/image.py
+++ b/pdr/loaders/image.py
@@ -24,10 +24,12 @@ def read_image(
     f.seek(start_byte)
     try:
         # Make sure that single-band images are 2-dim arrays.
-        if props["nbands"] == 1:
+        if props["nbands"] + props["bandpad"] == 1:
             image, axplanes, pre, suf = process_single_band_image(f, props)
         else:
             image, axplanes, pre, suf = process_multiband_image(f, props)
+            if props["nbands"] == 1:
+                image = image[0]
     except Exception as ex:
         raise ex
     finally:
@@ -182,7 +184,7 @@ def extract_axplanes(
     axplanes = {}
     for side, ax in product(("prefix", "suffix"), ("row", "col", "band")):
         # noinspection PyTypedDict
-        if (count := props.get(f"{side}_{ax}s")) is None:
+        if (count := props.get(f"{side}_{ax}s")) in (0, None):
             continue
         axn, axname = {
             "band": (0, "BAND"),
-- 
2.43.0


From ae7804b368fe4f18dd2e6c8d2982e28792601a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 005/121] fix: compute item offsets of COLUMNs not listed in
 byte order

---
 pdr/pd_utils.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index d919ab3..bbb8fcd 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -127,13 +127,10 @@ def compute_offsets(fmtdef: pd.DataFrame) -> pd.DataFrame:
     if "ITEM_BYTES" in fmtdef.columns:
         fmtdef["ITEM_SIZE"] = _apply_item_offsets(fmtdef)
         column_groups = fmtdef.loc[fmtdef["ITEM_SIZE"].notna()]
-        group_offs = column_groups['SB_OFFSET'].value_counts().sort_index()
-        gix_list, position = [], 0
-        for off, gl in zip(group_offs.index, group_offs.values):
-            itemsize = int(column_groups['ITEM_SIZE'].iloc[position])
-            gix_list += [(i * itemsize) + off for i in range(gl)]
-            position += gl
-        fmtdef.loc[column_groups.index, 'SB_OFFSET'] = gix_list
+        item_ix = column_groups.groupby("SB_OFFSET").cumcount()
+        fmtdef.loc[column_groups.index, 'SB_OFFSET'] += (
+            item_ix * column_groups["ITEM_SIZE"]
+        ).astype(int)
     pad_length = 0
     end_byte = fmtdef["SB_OFFSET"].iloc[-1] + fmtdef["BYTES"].iloc[-1]
     if "ROW_BYTES" in fmtdef.columns:
-- 
2.43.0


From db7a29ff72c4a25ad96c9972e500a54d15a27e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 006/121] fix: find the true end of a table row that ends in a
 multi-item COLUMN

---
 pdr/pd_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index bbb8fcd..e2e08e1 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -132,7 +132,11 @@ def compute_offsets(fmtdef: pd.DataFrame) -> pd.DataFrame:
             item_ix * column_groups["ITEM_SIZE"]
         ).astype(int)
     pad_length = 0
+    # at this point, the last row of a multi-item COLUMN is just its last item
     end_byte = fmtdef["SB_OFFSET"].iloc[-1] + fmtdef["BYTES"].iloc[-1]
+    if "ITEM_BYTES" in fmtdef.columns:
+        if pd.notna(item_bytes := fmtdef["ITEM_BYTES"].iloc[-1]):
+            end_byte = fmtdef["SB_OFFSET"].iloc[-1] + int(item_bytes)
     if "ROW_BYTES" in fmtdef.columns:
         pad_length += fmtdef["ROW_BYTES"].iloc[0] - end_byte
     if "ROW_SUFFIX_BYTES" in fmtdef.columns:
-- 
2.43.0


From 5e018c8ebbb42f2cd963d4b4bedf44f042b8e13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 007/121] fix: do not overflow narrow integer table columns
 when scaling them

---
 pdr/loaders/table.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 94a4a05..afba5a3 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -100,6 +100,12 @@ def read_table(
     if fmtdef.get("OFFSET") is not None or fmtdef.get("SCALING_FACTOR") is not None:
         for col in table.columns:
             record = fmtdef.loc[fmtdef['NAME'] == col].to_dict("records")[0]
+            if pd.api.types.is_integer_dtype(table[col]) and any(
+                record.get(k) and not pd.isnull(record.get(k))
+                for k in ("SCALING_FACTOR", "OFFSET")
+            ):
+                # prevent overflow of narrow integer types
+                table[col] = table[col].astype("int64")
             if record.get("SCALING_FACTOR") and not pd.isnull(record.get("SCALING_FACTOR")):
                 table[col] = table[col].mul(record["SCALING_FACTOR"])
             else:
-- 
2.43.0


From 1efb1b3a64c6d799c99a5c3551563a0caf85038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 008/121] fix: unnamed instruments are not JIRAM (bit column
 special case matched any substring)

---
 pdr/formats/checkers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 7002d8c..184b914 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -770,7 +770,7 @@ def check_special_bit_start_case(
     Special case checker used by get_bit_start_and_size() to fix
     incorrectly-defined bit offsets.
     """
-    if identifiers["INSTRUMENT_NAME"] in "JOVIAN INFRARED AURORAL MAPPER":
+    if identifiers["INSTRUMENT_NAME"] == "JOVIAN INFRARED AURORAL MAPPER":
         return formats.juno.bit_start_find_and_fix(
             list_of_pvl_objects_for_bit_columns, start_bit_list
         )
-- 
2.43.0


From 508d979e58e15c11d132acad9348193bcc4755f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 009/121] fix: place the elements of structured binary ARRAYs
 at their offsets

---
 pdr/loaders/queries.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index c7d2725..efc5ae2 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -657,10 +657,10 @@ def parse_array_structure(
     # Sometimes ARRAYS give START_BYTE at top level; sometimes only their
     # elements do. We want to defer responsibility for figuring this out to
     # compute_offsets(). This satisfies its type expectations.
+    from pdr.pd_utils import compute_offsets, insert_sample_types_into_df
     if "START_BYTE" in fmtdef.columns:
-        fmtdef['START_BYTE'].fillna(1, inplace=True)
-
-    from pdr.pd_utils import insert_sample_types_into_df
+        fmtdef['START_BYTE'] = fmtdef['START_BYTE'].fillna(1)
+        fmtdef = compute_offsets(fmtdef)
     return insert_sample_types_into_df(fmtdef, identifiers)
 
 
-- 
2.43.0


From 0813ed839ed169b7bd934bb3d17fceee58ea3e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 010/121] fix: read exponents in ASCII ARRAYs, and only the
 ARRAY's part of the file

---
 pdr/loaders/table.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index afba5a3..61c95d1 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -27,6 +27,8 @@ if TYPE_CHECKING:
     from pdr.pdrtypes import DataIdentifiers
 
 
+ASCII_NUMBER = re.compile(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")
+"""Pattern for a single element of an ASCII array."""
 PAD_CHARACTERS = ' \t",'
 """
 Characters we want to strip from the beginning/end of every element of an
@@ -50,10 +52,11 @@ def read_array(fn, block, start_byte, fmtdef_dt):
             )
         return array.reshape(block["AXIS_ITEMS"])
     # assume objects without the optional interchange_format key are ascii
-    with open(fn) as stream:
-        text = stream.read()
+    with decompress(fn) as stream:
+        stream.seek(start_byte)
+        text = stream.read().decode()
     try:
-        text = tuple(map(float, re.findall(r"[+-]?\d+\.?\d*", text)))
+        text = tuple(map(float, re.findall(ASCII_NUMBER, text)))
     except (TypeError, IndexError, ValueError):
         text = re.split(r"\s+", text)
     array = np.asarray(text).reshape(block["AXIS_ITEMS"])
-- 
2.43.0


From 249df0adc468ab35c20f4448f2452498b55baa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 011/121] fix: read binary objects from zip-compressed files

---
 pdr/np_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index 644f098..4d79aed 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -9,7 +9,7 @@ from gzip import GzipFile
 from io import BufferedIOBase, BytesIO
 from numbers import Number
 from typing import Optional, Union
-from zipfile import ZipFile
+from zipfile import ZipExtFile
 
 import numpy as np
 
@@ -79,7 +79,7 @@ def np_from_buffered_io(
     """
     if offset is not None:
         buffered_io.seek(offset)
-    if isinstance(buffered_io, (BZ2File, ZipFile, GzipFile, BytesIO)):
+    if isinstance(buffered_io, (BZ2File, ZipExtFile, GzipFile, BytesIO)):
         # we need to read the appropriate amount into a new buffer, especially
         # if it's monolithically compressed
         n_bytes = None if count is None else count * dtype.itemsize
-- 
2.43.0


From f70243c688bead10b75d1211971ef1e78d512061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 012/121] fix: read homogeneous binary ARRAYs from compressed
 files

---
 pdr/np_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index 4d79aed..88ac33a 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -77,6 +77,7 @@ def np_from_buffered_io(
     Read a 1D numpy array of the specified dtype, size, and offset from a
     buffered IO object.
     """
+    dtype = np.dtype(dtype)
     if offset is not None:
         buffered_io.seek(offset)
     if isinstance(buffered_io, (BZ2File, ZipExtFile, GzipFile, BytesIO)):
-- 
2.43.0


From f4eaa667cb1788be6babcfcac6e2572a58ab7aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 013/121] fix: follow format files that hold nothing but a
 ^TABLE_STRUCTURE pointer

---
 pdr/loaders/queries.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index efc5ae2..33395c1 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -835,7 +835,11 @@ def inject_format_files(
         fmt = list(load_format_file(data, format_fn, name, fn).items())
         # if the block is itself a TABLE, assume that it's intended to unpack
         # into a parent object, like a LINE_PREFIX_TABLE on an image
-        if len(fmt) == 1 and "TABLE" in fmt[0][0]:
+        if (
+            len(fmt) == 1
+            and "TABLE" in fmt[0][0]
+            and isinstance(fmt[0][1], Mapping)
+        ):
             fmt = list(fmt[0][1].items())
         assembled_structure += block[last_ix:ix] + fmt
         last_ix = ix + 1
-- 
2.43.0


From 0f6ee997b60da05631718ef518361b4ab8fd7926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 014/121] fix: look for implicitly-defined line prefix tables
 in their image's file

---
 pdr/pdr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index d93891a..3bdbc29 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -459,6 +459,10 @@ class Data:
         if is_comp is True:
             return comp_paths
         target = self.metaget_(pointerize(object_name))
+        if target is None and object_name in self._interleaved_objects:
+            # objects without pointers are in the same file as their parents
+            parent = self._interleaved_objects[object_name]["parent"]
+            return self._object_to_filename(parent)
         if isinstance(target, Sequence) and not (isinstance(target, str)):
             if isinstance(target[0], str):
                 target = target[0]
-- 
2.43.0


From b7c4856a3fd3b41915eb9f4ade318b7d093dd0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 015/121] fix: find start byte of any image associated with
 line prefix tables, not only IMAGE

---
 pdr/loaders/queries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 33395c1..ada09e7 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -927,6 +927,6 @@ def standalone_start_byte(
     result = softquery(
         lambda fn, start_byte: None,
         START_BYTE_QUERIES,
-        kwargdict={"data": data, "name": "IMAGE"},
+        kwargdict={"data": data, "name": object_name},
     )
     return result['fn'], result['start_byte']
-- 
2.43.0


From 8ea3cdabf8e1569835ae81ab5e6dea005416c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 016/121] fix: order the parts of LSB bit strings whose length
 is not 1, 2, 4 or 8 bytes

---
 pdr/bit_handling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdr/bit_handling.py b/pdr/bit_handling.py
index baeb33a..a682705 100644
--- a/pdr/bit_handling.py
+++ b/pdr/bit_handling.py
@@ -103,6 +103,10 @@ def convert_byte_column_to_bits(
             # make sure they're fixed-length
             .str.zfill(dtype[rec_ix].itemsize * 8)
         )
+    if byte_order == "<":
+        # the last integer of a little-endian byte string is its most
+        # significant part
+        bit_series.reverse()
     # TODO: should probably be a single pd.concat operation
     bits = reduce(add, bit_series)
     return bits
-- 
2.43.0


From 0d6d459e830f2af8e2855afbcd758c1eec9cedb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 017/121] fix: place the items of BIT_COLUMNs with an
 ITEM_OFFSET

---
 pdr/bit_handling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/bit_handling.py b/pdr/bit_handling.py
index a682705..0db0fa4 100644
--- a/pdr/bit_handling.py
+++ b/pdr/bit_handling.py
@@ -208,9 +208,10 @@ def get_bit_start_and_size(
         if pvl_obj.get("ITEMS"):
             items = pvl_obj.get("ITEMS")
             item_bits = pvl_obj.get("ITEM_BITS")
+            item_offset = pvl_obj.get("ITEM_OFFSET", item_bits)
             first_item_start_bit = pvl_obj.get("START_BIT")
             for item_index in range(items):
-                start_bit = first_item_start_bit + item_index * item_bits
+                start_bit = first_item_start_bit + item_index * item_offset
                 start_bit_list.append(start_bit)
                 bit_size_list.append(item_bits)
         else:
-- 
2.43.0


From e759233f2679e38b61e450ec7cf27feb31c309e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 018/121] fix: keep PVL parameters whose names merely start
 with END

---
 pdr/parselabel/pds3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index a51cd78..d2d8de1 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -23,6 +23,7 @@ from pdr.utils import decompress
 
 PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
 PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT|$)")
+PVL_BLOCK_FINALS = ("END", "END_OBJECT", "END_GROUP")
 PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE]-?\d+)?)|NULL|UNK|N/A")
 PVL_QUANTITY_UNITS = re.compile(r"<(.*)>")
 
@@ -112,7 +113,7 @@ class BlockParser:
         for parameter, value in statements:
             if parameter in PVL_BLOCK_INITIALS:
                 self._step_in(value)
-            elif parameter.startswith("END"):
+            elif parameter in PVL_BLOCK_FINALS:
                 # not bothering with aggregation name verification
                 if len(self.names) > 0:
                     self._step_out()
-- 
2.43.0


From d31f7ca1f3dc019f3c5b2a01aa8858962b7ee5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 019/121] fix: read PVL quantities with positive signed
 exponents

---
 pdr/parselabel/pds3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index d2d8de1..0d561c0 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -24,7 +24,7 @@ from pdr.utils import decompress
 PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
 PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT|$)")
 PVL_BLOCK_FINALS = ("END", "END_OBJECT", "END_GROUP")
-PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE]-?\d+)?)|NULL|UNK|N/A")
+PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE][+-]?\d+)?)|NULL|UNK|N/A")
 PVL_QUANTITY_UNITS = re.compile(r"<(.*)>")
 
 STRUCTUREPAT = re.compile(r"\^(?:(?:\w|_)+_)?STRUCTURE$")
-- 
2.43.0


From 3117dd3b92433ed8e2bdb9bd5970061b4a23dfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 020/121] fix: separate the first two lines of multi-line PVL
 values

---
 pdr/formats/checkers.py | 4 ++--
 pdr/parselabel/pds3.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 184b914..9afe5cd 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -754,10 +754,10 @@ def check_special_bit_column_case(
     """
     instrument = identifiers["INSTRUMENT_NAME"]
     if instrument in (
-        "ALPHA PARTICLE X-RAYSPECTROMETER",
+        "ALPHA PARTICLE X-RAY SPECTROMETER",
         "JOVIAN AURORAL PLASMA DISTRIBUTIONS EXPERIMENT",
         "CHEMISTRY AND MINERALOGY INSTRUMENT",
-        "MARS ADVANCED RADAR FOR SUBSURFACE ANDIONOSPHERE SOUNDING",
+        "MARS ADVANCED RADAR FOR SUBSURFACE AND IONOSPHERE SOUNDING",
     ):
         return True, "MSB_BIT_STRING"
     return False, None
diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 0d561c0..6df5659 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -75,8 +75,8 @@ def chunk_statements(trimmed_lines: Iterable[str]) -> list[tuple[str, str]]:
             # i strongly suspect we will never make semantic use of
             # parameters like this and so we will just ignore them for now
             continue
-        value_head += " ".join(map(str.strip, statement[1:]))
-        statements.append((parameter, value_head))
+        value = " ".join([value_head, *map(str.strip, statement[1:])])
+        statements.append((parameter, value.strip()))
     return statements
 
 
-- 
2.43.0


From 3320ed818512d3517b434ec5bade51b813cca5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 021/121] fix: do not read unquoted PVL values like 2001_123 as
 numbers

---
 pdr/parselabel/pds3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 6df5659..05db25f 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -319,7 +319,11 @@ def literalize_pvl(
             warnings.simplefilter("ignore", SyntaxWarning)
             if (not obj.startswith('"')) and ("#" in obj[1:3]):
                 return parse_non_base_10(obj)
-            return literal_eval(obj)
+            literal = literal_eval(obj)
+            if isinstance(literal, Number) and "_" in obj:
+                # Python, but not PVL, ignores underscores between digits
+                return obj
+            return literal
     except (SyntaxError, ValueError):
         try:
             if ("<" in obj) and (">" in obj):
-- 
2.43.0


From 80ad24a3808e5d4d662ba67ec3e7cc3f7cf5d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 022/121] fix: read LABEL of detached labels with characters
 that aren't UTF-8

---
 pdr/loaders/text.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/text.py b/pdr/loaders/text.py
index 58cd558..691b1a2 100644
--- a/pdr/loaders/text.py
+++ b/pdr/loaders/text.py
@@ -8,6 +8,7 @@ import warnings
 
 from pdr.loaders._helpers import canonicalized
 from pdr.loaders.utility import looks_like_this_kind_of_file
+from pdr.parselabel.pds3 import looks_pvl
 from pdr.parselabel.utils import trim_label
 from pdr.utils import check_cases, decompress
 
@@ -49,7 +50,10 @@ def read_label(
     (typically by accessing the "LABEL" key of a `pdr.Data` object).
     """
     if fmt == "text":
-        return trim_label(decompress(fn))
+        # like the main metadata workflow, tolerate bad characters in files
+        # that are surely PVL
+        with decompress(fn) as stream:
+            return trim_label(stream, strict_decode=not looks_pvl(fn))
     elif fmt == "pvl":
         import pvl
 
-- 
2.43.0


From 18e87fa652fd2d97b75a73b7188f467a7e084f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 023/121] fix: let metaget take defaults that cannot be hashed

---
 pdr/pdr.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 3bdbc29..4cc8c57 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -1214,12 +1214,18 @@ class Data:
 
 def _metaget_factory(metadata: Metadata) -> Callable[[str, Any], Any]:
 
+    # don't make the default part of the cache key: it may not be hashable
+    @cache
+    def cached_dig(text):
+        """"""
+        return dig_for_value(metadata, text, mtypes=(dict, MultiDict))
+
     def metaget_interior(text, default):
         """"""
-        value = dig_for_value(metadata, text, mtypes=(dict, MultiDict))
+        value = cached_dig(text)
         return default if value is None else value
 
-    return cache(metaget_interior)
+    return metaget_interior
 
 
 def _metablock_factory(metadata: Metadata) -> Callable[[str], Mapping]:
-- 
2.43.0


From bb06284fad9586aa065e2234f39a9221b2aba211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 024/121] fix: represent metadata that includes long blank text

---
 pdr/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/utils.py b/pdr/utils.py
index dd8d10a..da78e3b 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -209,7 +209,8 @@ def prettify_multidict(multi, sep=" ", indent=0):
         elif (not isinstance(v, str)) or (len(v) <= 70):
             output += f"{indentation}{k}: {v},{sep}"
         else:
-            lines = textwrap.wrap(v, width=(70 - len(indentation)))
+            # wrap() returns no lines at all for blank text
+            lines = textwrap.wrap(v, width=(70 - len(indentation))) or [""]
             vstr = f"{lines[0]}\n" + "\n".join(
                 [(" " * (indent + 1)) + line for line in lines[1:]]
             )
-- 
2.43.0


From 0a6341f58a04cef149ca02c0fb7a85fd6e354c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 025/121] fix: fall back to metadata for objects whose loaders
 return nothing

---
 pdr/pdr.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 4cc8c57..e0a73d1 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -583,13 +583,16 @@ class Data:
             self.file_mapping[name] = target
         try:
             obj = self.load_from_pointer(name, **load_kwargs)
-            if obj is None:
-                return
-            if not isinstance(obj, dict):
+            if obj is not None and not isinstance(obj, dict):
                 raise TypeError(
                     f"loader returned non-dict object of type ({type(obj)}"
                 )
-            self._add_loaded_objects(obj)
+            if obj is not None:
+                self._add_loaded_objects(obj)
+            # loaders return None for things they can't or won't load; fall
+            # back to metadata just as we do when they fail
+            if obj is None or obj.get(name) is None:
+                setattr(self, name, self.metaget_(name))
             return
         except DebugExceptionPreempted:
             pass
-- 
2.43.0


From 9ac471c32ba16b8791ac00bebc7ac839c1e1992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 026/121] fix: count FITS records in <RECORDS> pointers from 1

---
 pdr/loaders/queries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index ada09e7..f268bd8 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -380,7 +380,7 @@ def get_fits_start_byte(
         if target['units'] == 'BYTES':
             target = target['value']
         else:
-            target = target['value'] * 2880
+            target = (target['value'] - 1) * 2880
     return _agnostic_fits_index('HEADER' in name, target, hdulist)
 
 
-- 
2.43.0


From 8b7b9f01ddd230a012d02302c21f75fa38e22a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 027/121] fix: read FITS objects whose pointers give nothing
 but the file's name

---
 pdr/loaders/queries.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index f268bd8..8efe882 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -29,7 +29,12 @@ from pdr.loaders._helpers import (
 )
 from pdr.loaders.handlers import add_bit_column_info
 from pdr.parselabel.pds3 import pointerize, read_pvl, STRUCTUREPAT
-from pdr.utils import append_repeated_object, check_cases, find_repository_root
+from pdr.utils import (
+    append_repeated_object,
+    check_cases,
+    find_repository_root,
+    stem_path,
+)
 
 if TYPE_CHECKING:
     from pdr.loaders.astrowrap.fits import HDUList
@@ -369,8 +374,13 @@ def get_fits_start_byte(
     # TODO, maybe: this feels a bit redundant with data_start_byte(), but the
     #  logic _is_ legitimately different.
     if isinstance(target, str):
-        if target.lower() == Path(fn).name.lower():
-            target = 0
+        if target.lower() in (Path(fn).name.lower(), stem_path(Path(fn))):
+            if 'HEADER' in name:
+                return 0
+            # the first HDU that has data, if there is one
+            info = [hdu.fileinfo() for hdu in hdulist]
+            spans = [i for i in info if i['datSpan'] > 0] + info[:1]
+            return spans[0]['datLoc']
         else:
             # this should never happen!
             raise ValueError("This appears to point to the wrong file.")
-- 
2.43.0


From 9fbd10ff1ac8ea6eb8569c59d3773dd22a914fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 028/121] fix: let headers that were found while loading FITS
 objects be reloaded

---
 pdr/pdr.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index e0a73d1..f829101 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -270,6 +270,8 @@ class Data:
         # dict of [str, int] for HDU name / position in primary FITS files,
         # for reindexing duplicates and efficiency
         self._hdumap = None
+        # objects we only find by loading other objects (e.g. FITS headers)
+        self._companions = {}
         # data structure recording interleaved PDS3 objects not defined at top
         # level, intended for things like axplanes and line prefix tables
         self._interleaved_objects = {}
@@ -554,17 +556,20 @@ class Data:
                 f"{name} is already loaded; pass reload=True to "
                 f"force reload."
             )
+        if name in self._companions:
+            # the only way to get these is to load the object they come with
+            return self.load(self._companions[name], True, **load_kwargs)
         if self.standard == "PDS4":
             return self._load_pds4(name)
         if self.standard == "FITS":
-            self._add_loaded_objects(self._load_primary_fits(name))
+            self._add_loaded_objects(self._load_primary_fits(name), name)
             return
         if self.standard in DESKTOP_IMAGE_STANDARDS:
             from pdr.loaders.handlers import handle_compressed_image
 
             if self.metaget("n_frames", 1) == 1:
                 self._add_loaded_objects(
-                    {name: handle_compressed_image(self.filename)}
+                    {name: handle_compressed_image(self.filename)}, name
                 )
                 return
             # TODO: hacky!
@@ -573,7 +578,7 @@ class Data:
             else:
                 seek = int(name.split("_")[-1])
             self._add_loaded_objects(
-                {name: handle_compressed_image(self.filename, seek)}
+                {name: handle_compressed_image(self.filename, seek)}, name
             )
             return
         if self.file_mapping.get(name) is None:
@@ -588,7 +593,7 @@ class Data:
                     f"loader returned non-dict object of type ({type(obj)}"
                 )
             if obj is not None:
-                self._add_loaded_objects(obj)
+                self._add_loaded_objects(obj, name)
             # loaders return None for things they can't or won't load; fall
             # back to metadata just as we do when they fail
             if obj is None or obj.get(name) is None:
@@ -606,13 +611,17 @@ class Data:
             warnings.warn(f"Unable to load {name}: {ex}")
         setattr(self, name, self.metaget_(name))
 
-    def _add_loaded_objects(self, obj: Mapping[str, Any]):
-        """Helper for `load()`. Ingests objects returned by a `Loader`."""
+    def _add_loaded_objects(self, obj: Mapping[str, Any], name: str):
+        """
+        Helper for `load()`. Ingests objects returned by a `Loader` in the
+        course of loading `name`.
+        """
         for k, v in obj.items():
             if v is not None:
                 setattr(self, k, v)
                 if k not in self.index:
                     self.index.append(k)
+                    self._companions[k] = name
 
     def load_all(self):
         """Handler (and alias) for `Data.load("all")`."""
@@ -745,12 +754,12 @@ class Data:
                 structure.parent_filename, object_name, offset
             )
             if structure.is_header() is True:
-                return self._add_loaded_objects(result)
+                return self._add_loaded_objects(result, object_name)
             if (hid := self._find_fits_header_pds4_id(offset)) is not None:
                 result[hid] = result.pop(f"{object_name}_HEADER")
             if structure.is_array() is True:
                 self._scaleflags[object_name] = True
-            self._add_loaded_objects(result)
+            self._add_loaded_objects(result, object_name)
         elif structure.is_array():
             import numpy as np
 
-- 
2.43.0


From 352d033f14f34498359be69a922cdcaaec50e01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 029/121] fix: read the data of all FITS HDUs that have HEADER
 in their names

---
 pdr/loaders/handlers.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index a413377..be19cf6 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -75,12 +75,9 @@ def handle_fits_file(
         # this is the case when dealing with a FITS file in 'primary' mode.
         # This is a little sloppy, but it is more convenient to handle certain
         # things upstream. may want to collapse the two cases at some point.
-        hdu_ix = hdu_id
-        is_header = (
-            "HEADER" in name
-            # cases where HDUs are named things like "IMAGE HEADER"
-            and name not in [h[1] for h in hdulist.info(False)]
-        )
+        # note that HDUs may have names like "IMAGE HEADER"; we always want the
+        # HDU's data and header.
+        hdu_ix, is_header = hdu_id, False
     try:
         hdr_val = handle_fits_header(hdulist, hdu_ix)
     # astropy.io.fits does not call any verification on read. on 'output'
-- 
2.43.0


From fedb4598fc91dd0437e9abd2101bc1ec1773f1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 030/121] fix: open FITS files with invalid header cards

---
 pdr/loaders/handlers.py | 49 ++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index be19cf6..308f9b6 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -78,22 +78,7 @@ def handle_fits_file(
         # note that HDUs may have names like "IMAGE HEADER"; we always want the
         # HDU's data and header.
         hdu_ix, is_header = hdu_id, False
-    try:
-        hdr_val = handle_fits_header(hdulist, hdu_ix)
-    # astropy.io.fits does not call any verification on read. on 'output'
-    # tasks -- which iterating over header cards (sometimes) counts as, and
-    # which we have to do in order to place the header content into our
-    # preferred data structure -- it does call verification at the strictest
-    # settings, resulting in delayed exceptions. However, we do not want to
-    # automatically run every fix, because astropy's fixes can be quite slow
-    # on large, complicated headers. So, if and when astropy decides something
-    # is too invalid to show us, tell it to fix it.
-    except fits.VerifyError:
-        try:
-            hdulist.verify('silentfix')
-            hdr_val = handle_fits_header(hdulist, hdu_ix)
-        except (fits.VerifyError, ValueError):  # real messed up
-            hdr_val = handle_fits_header(hdulist, hdu_ix, skip_bad_cards=True)
+    hdr_val = handle_dubious_fits_header(hdulist, hdu_ix)
     if is_header is True:
         return {name: hdr_val}
     output, hdu = {f"{name}_HEADER": hdr_val}, hdulist[hdu_ix]
@@ -256,6 +241,32 @@ def handle_fits_header(
     return output_hdr
 
 
+def handle_dubious_fits_header(hdulist: HDUList, hdu_ix: int) -> MultiDict:
+    """
+    Load the header of a specified HDU as a MultiDict, fixing or skipping
+    invalid cards if necessary.
+
+    astropy.io.fits does not call any verification on read. on 'output'
+    tasks -- which iterating over header cards (sometimes) counts as, and
+    which we have to do in order to place the header content into our
+    preferred data structure -- it does call verification at the strictest
+    settings, resulting in delayed exceptions. However, we do not want to
+    automatically run every fix, because astropy's fixes can be quite slow
+    on large, complicated headers. So, if and when astropy decides something
+    is too invalid to show us, tell it to fix it.
+    """
+    from astropy.io import fits
+
+    try:
+        return handle_fits_header(hdulist, hdu_ix)
+    except fits.VerifyError:
+        try:
+            hdulist.verify('silentfix')
+            return handle_fits_header(hdulist, hdu_ix)
+        except (fits.VerifyError, ValueError):  # real messed up
+            return handle_fits_header(hdulist, hdu_ix, skip_bad_cards=True)
+
+
 # TODO: shouldn't be in this module
 def add_bit_column_info(
     obj: dict,
@@ -306,12 +317,14 @@ def unpack_fits_headers(
     for name, group in namegroups.items():
         if len(group) == 1:
             hdu_ix = group[0][0]
-            headerdict.add(name, handle_fits_header(hdulist, hdu_ix))
+            headerdict.add(name, handle_dubious_fits_header(hdulist, hdu_ix))
             hdumap[name] = hdu_ix
             continue
         for ix, hdu in enumerate(group):
             hdu_ix, hdu_name = hdu[0], f'{name}_{ix}'
-            headerdict.add(hdu_name, handle_fits_header(hdulist, hdu_ix))
+            headerdict.add(
+                hdu_name, handle_dubious_fits_header(hdulist, hdu_ix)
+            )
             hdumap[hdu_name] = hdu_ix
     params = []
     for hdu_name in headerdict.keys():
-- 
2.43.0


From be08bf71d885c3e295514fdd397b867342ad5844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 031/121] fix: reread FITS HDUs from their files when they are
 reloaded

---
 pdr/pdr.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index f829101..8194616 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -267,6 +267,8 @@ class Data:
         # cache for hdulist, for primary FITS files -- this is primarily
         # an optimization for compressed files
         self._hdulist = None
+        # indices of all HDUs we've loaded from self._hdulist
+        self._hdus_read = set()
         # dict of [str, int] for HDU name / position in primary FITS files,
         # for reindexing duplicates and efficiency
         self._hdumap = None
@@ -653,12 +655,14 @@ class Data:
         """Handle loading an HDU from a FITS file in "primary" FITS mode."""
         from pdr.loaders.handlers import handle_fits_file
 
+        hdu_ix = self._hdumap[object_name]
+        # astropy gives us the same array every time we ask it for an HDU's
+        # data, and may edit the HDU's header when we do. If we've already
+        # loaded this HDU, go back to the file.
+        hdulist = None if hdu_ix in self._hdus_read else self._hdulist
+        self._hdus_read.add(hdu_ix)
         obj = handle_fits_file(
-            self.filename,
-            object_name,
-            self._hdumap[object_name],
-            self._hdulist,
-            hdu_id_is_index=True
+            self.filename, object_name, hdu_ix, hdulist, hdu_id_is_index=True
         )
         if obj.__class__.__name__ == "ndarray":
             self._scaleflags[object_name] = True
-- 
2.43.0


From ccbca6bf3b434f92723585655704af8bc5fc03ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 032/121] fix: reread PDS4 objects from their files when they
 are reloaded

---
 pdr/pdr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 8194616..f256732 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -743,6 +743,9 @@ class Data:
         structure = self._pds4_structures[object_name]
         from pdr.pds4_tools.reader.label_objects import Label
 
+        # pds4_tools caches data on the structure. If we have loaded it before,
+        # it shares memory with whatever we gave the user then.
+        vars(structure).pop("data", None)
         if isinstance(structure, Label):
             setattr(self, "label", structure)
         elif check_special_pds4_cases(structure, self.filename,
-- 
2.43.0


From 6a0ea21d111b2b3cce43dcfee0600c80af57164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 033/121] fix: leave loaded FITS objects alone when reloading
 their headers

---
 pdr/pdr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index f256732..6e9ccfa 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -560,7 +560,12 @@ class Data:
             )
         if name in self._companions:
             # the only way to get these is to load the object they come with
-            return self.load(self._companions[name], True, **load_kwargs)
+            parent = self._companions[name]
+            loaded = vars(self).get(parent)
+            self.load(parent, True, **load_kwargs)
+            if loaded is not None:
+                setattr(self, parent, loaded)
+            return
         if self.standard == "PDS4":
             return self._load_pds4(name)
         if self.standard == "FITS":
-- 
2.43.0


From 55c28e13e42dadd485c1c6206fbcd6883b6c4040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 034/121] fix: keep the precision of IBM reals that would be
 subnormal as float32

---
 pdr/pd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index e2e08e1..4d3396d 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -339,7 +339,7 @@ def convert_ibm_reals(df: pd.DataFrame, fmtdef: pd.DataFrame) -> pd.DataFrame:
             big = absolute.max() > np.finfo(np.float32).max
             nonzero = absolute[absolute > 0]
             if len(nonzero) > 0:
-                small = nonzero.min() < 1e-44
+                small = nonzero.min() < np.finfo(np.float32).tiny
             else:
                 small = False
             if not (big or small):
-- 
2.43.0


From 5fa565cd7bea39ec2affea0803a818fd15217c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 035/121] fix: use the record size of the FILE object that
 holds a pointer

---
 pdr/loaders/queries.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 8efe882..1d769eb 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -889,9 +889,36 @@ def load_format_file(
         raise FileNotFoundError
 
 
-def get_identifiers(data) -> dict[str, Any]:
-    """Query wrapper for `pdr.Data.__getattr__("identifiers")`"""
-    return data.identifiers
+def _enclosing_file_block(data: PDRLike, name: str) -> Mapping:
+    """
+    Get the FILE object, if any, that describes the file that contains an
+    object, i.e., the one that contains the object's pointer.
+    """
+    if name in data._interleaved_objects.keys():
+        name = data._interleaved_objects[name]['parent']
+    for key, block in data.metadata.items():
+        if (
+            key.endswith("FILE")
+            and isinstance(block, Mapping)
+            and pointerize(name) in block.keys()
+        ):
+            return block
+    return {}
+
+
+def get_identifiers(data: PDRLike, name: str) -> dict[str, Any]:
+    """
+    Query wrapper for `pdr.Data.__getattr__("identifiers")`. If the label
+    describes the object's file in a FILE object, the record characteristics
+    are that file's.
+    """
+    file_block = _enclosing_file_block(data, name)
+    characteristics = {
+        k: file_block[k]
+        for k in ("RECORD_TYPE", "RECORD_BYTES", "FILE_RECORDS")
+        if k in file_block.keys()
+    }
+    return data.identifiers | characteristics
 
 
 def get_none() -> None:
-- 
2.43.0


From 5ebd9e16cadb724a28809ecd07892c46d8cf5db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 036/121] fix: tolerate empty pointers when looking for an
 object's file

---
 pdr/pdr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 6e9ccfa..984a766 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -468,7 +468,7 @@ class Data:
             parent = self._interleaved_objects[object_name]["parent"]
             return self._object_to_filename(parent)
         if isinstance(target, Sequence) and not (isinstance(target, str)):
-            if isinstance(target[0], str):
+            if len(target) > 0 and isinstance(target[0], str):
                 target = target[0]
         if isinstance(target, str):
             return self.get_absolute_paths(target)
-- 
2.43.0


From 12f88db3322a0d6d9ab4a66680ef1e2c40226da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 037/121] fix: warn about binary tables that are cut off by the
 end of their file

---
 pdr/loaders/table.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 61c95d1..32639b8 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -5,6 +5,7 @@ TABLE/SPREADSHEET/ARRAY/HISTOGRAM loading.
 from __future__ import annotations
 from io import StringIO
 from typing import Optional, TYPE_CHECKING
+import warnings
 
 import numpy as np
 import pandas as pd
@@ -132,6 +133,11 @@ def _interpret_as_binary(fn, fmtdef, dt, block, start_byte):
         table = np_from_buffered_io(
             f, dtype=dt, offset=start_byte, count=count
         )
+    if len(table) < count:
+        warnings.warn(
+            f"{fn} ends before the end of this table; only {len(table)} of "
+            f"its {count} rows can be read."
+        )
     table = enforce_order_and_object(table)
     table = pd.DataFrame(table)
     table = convert_ibm_reals(table, fmtdef)
-- 
2.43.0


From 3d15ab53dd991b7ed5fb0c833a45b7ead2b2e004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 038/121] fix: mask special constants that are not exact in
 single precision

---
 pdr/_scaling.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 34122cc..0171e88 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -57,13 +57,21 @@ def mask_specials(obj, specials):
     obj = np.ma.masked_array(obj)
     if np.nan in specials:
         # masks infs and nans as well
-        obj.mask = np.ma.mask_or(np.isin(obj.data, specials),
+        obj.mask = np.ma.mask_or(_isin(obj.data, specials),
                                  ~np.isfinite(obj.data))
     else:
-        obj.mask = np.isin(obj.data, specials)
+        obj.mask = _isin(obj.data, specials)
     return obj
 
 
+def _isin(array, specials):
+    """np.isin(), but compares values at the precision of the array"""
+    if array.dtype.kind == "f":
+        with np.errstate(over="ignore"):
+            specials = np.array(specials).astype(array.dtype)
+    return np.isin(array, specials)
+
+
 def fit_to_scale(
     arr: np.ndarray,
     scale: Union[Integral, Real],
-- 
2.43.0


From 2434e77b538b5fa8c446a8825758b01c80c5e249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 039/121] fix: correct the implicit N/A constant of signed
 32-bit integers

---
 pdr/datatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/datatypes.py b/pdr/datatypes.py
index 0ce89bf..a6233b9 100644
--- a/pdr/datatypes.py
+++ b/pdr/datatypes.py
@@ -171,12 +171,12 @@ IMPLICIT_PDS3_CONSTANTS = MappingProxyType(
         },
         # note that signed 32-bit integers don't seem to be considered in ISIS
         "int32": {
-            "N/A": -214743648,
+            "N/A": -2147483648,
             "UNK": 2147483647,
         },
         # TODO: dubious. when do we read 64-bit integers out of PDS3
         #  arrays anyway?
-        "int64": {"N/A": -214743648, "UNK": 2147483647},
+        "int64": {"N/A": -2147483648, "UNK": 2147483647},
         "uint32": {
             "N/A": 4294967293,
             "UNK": 4294967294,
-- 
2.43.0


From fb13b294a01c7178d742ad2241119902d8c8205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 040/121] fix: scale arrays of types with no known implicit
 special constants

---
 pdr/_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 0171e88..dfb1409 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -39,7 +39,7 @@ def find_special_constants(
     if obj.dtype.name == "uint8":
         return specials
     # check for implicit constants appropriate to the sample type
-    implicit_possibilities = IMPLICIT_PDS3_CONSTANTS[obj.dtype.name]
+    implicit_possibilities = IMPLICIT_PDS3_CONSTANTS.get(obj.dtype.name, {})
     # can't check for nans with "in" because it's an equality check, so
     # we don't intend this to be used, just want to make the key and put
     # in a value that won't conflict later
-- 
2.43.0


From 1f75de63b1f2dfee080317b18be2fb06ebbf154c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 041/121] fix: keep integer arrays from overflowing when they
 are scaled

---
 pdr/_scaling.py | 88 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 55 insertions(+), 33 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index dfb1409..ddf2dc8 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -2,7 +2,6 @@ from __future__ import annotations
 
 import warnings
 from functools import wraps
-from itertools import product
 from numbers import Integral, Number, Real
 from typing import Optional, Sequence, Union
 
@@ -74,63 +73,82 @@ def _isin(array, specials):
 
 def fit_to_scale(
     arr: np.ndarray,
-    scale: Union[Integral, Real],
-    offset: Union[Integral, Real]
+    offset: Union[Integral, Real],
+    scale: Union[Integral, Real]
 ) -> np.ndarray:
     """
-    Return a version of `arr` cast to the minimum dtype that will hold its
-    range of values after multiplying by `offset` and adding `scale`.
+    Return `arr`, cast if necessary to the minimum dtype that will hold its
+    range of values after multiplying by `scale` and adding `offset` (and
+    along the way).
 
     Supports:
 
     float32, float64, uint8, int8, uint16, int16, uint32, int32, uint64, int64.
     """
-    if arr.dtype.char not in 'bBhHiIlLqQnNpPf':
+    if arr.dtype.kind not in 'iuf':
         raise TypeError(f"This function does not support {arr.dtype.name}")
-    if arr.dtype.char in 'fd' or int(scale + offset) != scale + offset:
-        bases, widths, infofunc = ('f',), (4, 8), np.finfo
+    if arr.dtype.kind == 'f' or casting_to_float(arr, scale, offset):
+        candidates, infofunc, python = ('f4', 'f8'), np.finfo, float
     else:
-        bases, widths, infofunc = ('u', 'i'), (1, 2, 4, 8), np.iinfo
-    amin, amax = map(int, (arr.min(), arr.max()))
-    smin, smax = amin * scale + offset, amax * scale + offset
-    for base, width in product(bases, widths):
-        candidate = np.dtype(f'{base}{width}')
+        candidates, infofunc, python = (
+            ('u1', 'i1', 'u2', 'i2', 'u4', 'i4', 'u8', 'i8'), np.iinfo, int
+        )
+    extremes = [arr.min(), arr.max()] if arr.size > 0 else []
+    extremes = [python(e) for e in extremes if e is not np.ma.masked]
+    scaled = [e * scale for e in extremes]
+    values = extremes + scaled + [e + offset for e in scaled]
+    values += [scale, offset]
+    for candidate in (arr.dtype, *map(np.dtype, candidates)):
+        if (python is float) and (candidate.kind != 'f'):
+            continue
         cinfo = infofunc(candidate)
-        if smin >= cinfo.min and smax <= cinfo.max:
-            return arr.astype(candidate)
-    raise TypeError("Unable to find a suitable data type for scaling.")
+        if all(cinfo.min <= v <= cinfo.max for v in values):
+            return arr.astype(candidate, copy=False)
+    return arr.astype('f8', copy=False)
 
 
 def overflow_wrap(array_func):
     @wraps(array_func)
-    def with_upcasting(arr, scale, offset, *args, **kwargs):
+    def with_upcasting(arr, offset, scale, *args, **kwargs):
         with warnings.catch_warnings():
             warnings.filterwarnings("error", message=".*overflow enc.*")
             try:
-                return array_func(arr, scale, offset, *args, **kwargs)
+                return array_func(arr, offset, scale, *args, **kwargs)
             except (OverflowError, RuntimeWarning):
-                arr = fit_to_scale(arr, scale, offset)
-                return array_func(arr, scale, offset, *args, **kwargs)
+                arr = fit_to_scale(arr, offset, scale)
+        return array_func(arr, offset, scale, *args, **kwargs)
 
     return with_upcasting
 
 
-def _copy_scale(obj, offset, scale):
+def _is_per_plane(obj, offset, scale):
+    """do we have a different scale and offset for each plane of obj?"""
     try:
-        # TODO: we should also be doing this per-plane scaling in inplace case
-        if len(obj) == len(scale) == len(offset) > 1:
-            planes = [
-                obj[ix] * scale[ix] + offset[ix] for ix in range(len(scale))
-            ]
-            stacked = np.rollaxis(np.ma.dstack(planes), 2)
-            return stacked
+        return len(obj) == len(scale) == len(offset) > 1
     except TypeError:
-        pass  # len() is not usable on a float object
+        return False  # len() is not usable on a float object
+
+
+@overflow_wrap
+def _copy_scale(obj, offset, scale):
+    # TODO: we should also be doing this per-plane scaling in inplace case
+    if _is_per_plane(obj, offset, scale):
+        planes = [
+            _copy_scale(obj[ix], offset[ix], scale[ix])
+            for ix in range(len(scale))
+        ]
+        stacked = np.rollaxis(np.ma.dstack(planes), 2)
+        return stacked
+    # numpy silently wraps integers
+    if casting_to_float(obj, scale, offset):
+        obj = obj.astype("f8")
+    elif obj.dtype.kind in 'iu':
+        obj = fit_to_scale(obj, offset, scale)
     return obj * scale + offset
 
 
 def _inplace_scale(obj, offset, scale):
-    if len(obj) == len(scale) == len(offset) > 1:
+    if _is_per_plane(obj, offset, scale):
         for ix, _ in enumerate(scale):
             obj[ix] = obj[ix] * scale[ix] + offset[ix]
     else:
@@ -172,15 +190,19 @@ def scale_array(
         return obj
     # try to perform the operation in-place if requested, although if
     # we're casting to float, we can't
-    # TODO: detect rollover cases, etc.
     if inplace is True and not casting_to_float(obj, scale, offset):
-        return overflow_wrap(_inplace_scale)(obj, offset, scale)
+        # (or if the results do not fit)
+        if (
+            _is_per_plane(obj, offset, scale)
+            or fit_to_scale(obj, offset, scale).dtype == obj.dtype
+        ):
+            return _inplace_scale(obj, offset, scale)
     # if we're casting to float, permit specification of dtype
     # prior to operation (float64 is numpy's default and often excessive)
     if casting_to_float(obj, scale, offset):
         if float_dtype is not None:
             obj = obj.astype(float_dtype)
-    return overflow_wrap(_copy_scale)(obj, offset, scale)
+    return _copy_scale(obj, offset, scale)
 
 
 # TODO: shake this out much more vigorously
-- 
2.43.0


From 82e223fe28b27efb7c6ee7f68209c87f07126e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:28 +0000
Subject: [PATCH 042/121] fix: leave PDS4 arrays alone when scaling them, and
 always mask their special constants

---
 pdr/_scaling.py | 11 ++++++++---
 pdr/pdr.py      |  4 +++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index ddf2dc8..927de73 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -207,12 +207,13 @@ def scale_array(
 
 # TODO: shake this out much more vigorously
 # noinspection PyUnresolvedReferences
-def scale_pds4_tools_struct(struct: object) -> np.ndarray:
+def scale_pds4_tools_struct(struct: object, array: np.ndarray) -> np.ndarray:
     """see pds4_tools.reader.read_arrays.new_array"""
     # TODO: apply bit_mask
-    from pdr.pds4_tools.reader.data_types import apply_scaling_and_value_offset
+    from pdr.pds4_tools.reader.data_types import (
+        apply_scaling_and_value_offset, mask_special_constants
+    )
 
-    array = struct.data
     element_array = struct.meta_data["Element_Array"]
     scale_kwargs = {
         "scaling_factor": element_array.get("scaling_factor"),
@@ -222,6 +223,10 @@ def scale_pds4_tools_struct(struct: object) -> np.ndarray:
     #     dtype = pds_to_numpy_type(struct.meta_data.data_type(),
     #     data=array, **scale_kwargs)
     special_constants = struct.meta_data.get("Special_Constants")
+    # this may modify its argument, and only masks it if it scales it
+    array = mask_special_constants(
+        array.copy(), special_constants=special_constants
+    )
     array = apply_scaling_and_value_offset(
         array, special_constants=special_constants, **scale_kwargs
     )
diff --git a/pdr/pdr.py b/pdr/pdr.py
index 984a766..100d44b 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -909,7 +909,9 @@ class Data:
             #  the inplace and float_dtype arguments do something.
             #  check and see if implicit special constants ever still exist
             #  stealthily in PDS4 data. etc.
-            return scale_pds4_tools_struct(self._pds4_structures[object_name])
+            return scale_pds4_tools_struct(
+                self._pds4_structures[object_name], obj
+            )
 
         # TODO: double-check that astropy is successfully handling masking
         # TODO: most 'desktop' image formats should never contain special
-- 
2.43.0


From 35d897f1c9b5750b53baa846364d2721f9287b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:28 +0000
Subject: [PATCH 043/121] fix: scale masked unsigned arrays in place

---
 pdr/_scaling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 927de73..8a5a550 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -152,8 +152,9 @@ def _inplace_scale(obj, offset, scale):
         for ix, _ in enumerate(scale):
             obj[ix] = obj[ix] * scale[ix] + offset[ix]
     else:
-        obj *= scale
-        obj += offset
+        # masked arrays would treat plain integers as 64-bit integers
+        obj *= obj.dtype.type(scale)
+        obj += obj.dtype.type(offset)
     return obj
 
 
-- 
2.43.0


From 158c29b04ce0c78f689b3171d0346d9369df117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:17 +0000
Subject: [PATCH 044/121] fix: apply signed PDS4 offsets and scaling factors to
 unsigned arrays

---
 pdr/pds4_tools/reader/data_types.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pdr/pds4_tools/reader/data_types.py b/pdr/pds4_tools/reader/data_types.py
index a1b442c..1979da9 100644
--- a/pdr/pds4_tools/reader/data_types.py
+++ b/pdr/pds4_tools/reader/data_types.py
@@ -790,7 +790,13 @@ def apply_scaling_and_value_offset(data, scaling_factor=None, value_offset=None,
         if isinstance(scaling_factor, six.integer_types):
             scale_dtype = get_min_integer_numpy_type([scaling_factor])
 
-        data *= np.array(scaling_factor, dtype=scale_dtype)
+        scaling_array = np.array(scaling_factor, dtype=scale_dtype)
+
+        # (NumPy refuses to do this in-place if data are unsigned and the scaling factor is signed)
+        try:
+            data *= scaling_array
+        except TypeError:
+            data = data * scaling_array
 
     if not no_offset:
 
@@ -798,7 +804,13 @@ def apply_scaling_and_value_offset(data, scaling_factor=None, value_offset=None,
         if isinstance(value_offset, six.integer_types):
             offset_dtype = get_min_integer_numpy_type([value_offset])
 
-        data += np.array(value_offset, dtype=offset_dtype)
+        offset_array = np.array(value_offset, dtype=offset_dtype)
+
+        # (as above)
+        try:
+            data += offset_array
+        except TypeError:
+            data = data + offset_array
 
     # Cast down integers if possible
     # (see note in `adjust_array_data_type` for why this can be necessary)
-- 
2.43.0


From 0b23c8e22ff3a872282c085fadaaa69538ec6b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 045/121] fix: compare special constants exactly with integer
 arrays, and do not overflow per-plane scaling in place

---
 pdr/_scaling.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 8a5a550..ee1dea6 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -64,10 +64,16 @@ def mask_specials(obj, specials):
 
 
 def _isin(array, specials):
-    """np.isin(), but compares values at the precision of the array"""
+    """np.isin(), but compares values as elements of the array's own type"""
     if array.dtype.kind == "f":
         with np.errstate(over="ignore"):
             specials = np.array(specials).astype(array.dtype)
+    elif array.dtype.kind in "iu":
+        info = np.iinfo(array.dtype)
+        specials = np.array(
+            [s for s in specials if info.min <= s <= info.max and s == int(s)],
+            dtype=array.dtype
+        )
     return np.isin(array, specials)
 
 
@@ -129,6 +135,13 @@ def _is_per_plane(obj, offset, scale):
         return False  # len() is not usable on a float object
 
 
+def _fits(obj, offset, scale):
+    """can the dtype of obj hold its scaled values?"""
+    if _is_per_plane(obj, offset, scale):
+        return all(map(_fits, obj, offset, scale))
+    return fit_to_scale(obj, offset, scale).dtype == obj.dtype
+
+
 @overflow_wrap
 def _copy_scale(obj, offset, scale):
     # TODO: we should also be doing this per-plane scaling in inplace case
@@ -193,10 +206,7 @@ def scale_array(
     # we're casting to float, we can't
     if inplace is True and not casting_to_float(obj, scale, offset):
         # (or if the results do not fit)
-        if (
-            _is_per_plane(obj, offset, scale)
-            or fit_to_scale(obj, offset, scale).dtype == obj.dtype
-        ):
+        if _fits(obj, offset, scale):
             return _inplace_scale(obj, offset, scale)
     # if we're casting to float, permit specification of dtype
     # prior to operation (float64 is numpy's default and often excessive)
-- 
2.43.0


From e2b5b99f19eea0b10fcf98365b3c670a79db4d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:22 +0000
Subject: [PATCH 046/121] fix: tolerate words and quantities as special
 constants

---
 pdr/_scaling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index ee1dea6..4455581 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -33,6 +33,10 @@ def find_special_constants(
     for k in specials.keys():
         if isinstance(specials[k], Sequence):
             specials[k] = specials[k][0]
+        if isinstance(specials[k], dict):
+            specials[k] = specials[k]["value"]
+    # some labels use words like UNK or NULL
+    specials = {k: v for k, v in specials.items() if isinstance(v, Number)}
     # ignore uint8 implicit constants (0, 255) for now -- too problematic
     # TODO: maybe add an override
     if obj.dtype.name == "uint8":
-- 
2.43.0


From c2a8b8f7fc95897f9d1af944e7682657d7265c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:56 +0000
Subject: [PATCH 047/121] fix: compare scaled floats with the limits of their
 types exactly

---
 pdr/_scaling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 4455581..5f1c216 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -111,8 +111,9 @@ def fit_to_scale(
     for candidate in (arr.dtype, *map(np.dtype, candidates)):
         if (python is float) and (candidate.kind != 'f'):
             continue
-        cinfo = infofunc(candidate)
-        if all(cinfo.min <= v <= cinfo.max for v in values):
+        cmin, cmax = map(python, (infofunc(candidate).min,
+                                  infofunc(candidate).max))
+        if all(cmin <= v <= cmax for v in values):
             return arr.astype(candidate, copy=False)
     return arr.astype('f8', copy=False)
 
-- 
2.43.0


From 6fbe17fb7fed1d509a9258b35c2c8dd8f960f2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 048/121] fix: give every PDS4 structure a name of its own

Structures with the same name hid each other, and structures with names of
attributes of Data (index, metadata...) could not be loaded.
---
 pdr/pdr.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 100d44b..a40c77c 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -344,9 +344,18 @@ class Data:
         structure_list = pds4.read(
             self.labelname, lazy_load=True, quiet=True, no_scale=True
         )
-        for structure in structure_list.structures:
-            self._pds4_structures[structure.id.replace(" ", "_")] = structure
-            self.index.append(structure.id.replace(" ", "_"))
+        ids = [s.id.replace(" ", "_") for s in structure_list.structures]
+        # structures must not hide attributes of ours (or our label)
+        reserved = {*dir(self), "metadata", "label"}
+        for ix, structure in enumerate(structure_list.structures):
+            key = ids[ix]
+            if ids.count(key) > 1:
+                # names are not necessarily unique
+                key = f"{key}_{ids[:ix].count(key)}"
+            while key in reserved or key in self._pds4_structures:
+                key += "_"
+            self._pds4_structures[key] = structure
+            self.index.append(key)
         self._pds4_structures["label"] = structure_list.label
         self.index.append("label")
 
-- 
2.43.0


From 2207cf1dcffc91f5949ea0d23e3f78c181d106a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 049/121] fix: find the labeled headers of FITS objects of PDS4
 products

Headers with local identifiers or no name at all were given two names, and
headers of one file were taken for those of another one.
---
 pdr/pdr.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index a40c77c..c89ed1c 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -720,12 +720,14 @@ class Data:
     #  duplicate header objects, one like "object_name_HEADER" and one like
     #  "HEADER_0", etc. This can also happen for PDS3, so maybe this is just
     #  an acceptable interface idiom.
-    def _find_fits_header_pds4_id(self, start_byte: int) -> Optional[str]:
+    def _find_fits_header_pds4_id(
+        self, filename: str, start_byte: int
+    ) -> Optional[str]:
         """
-        Given start byte for an HDU's data segment, check to see if the
-        PDS4 product associated with self includes that HDU's header as a
-        distinct data object with a local identifier. If it is, return the
-        PDS4 local identifier of that object. If not, return None.
+        Given a file and start byte for an HDU's data segment, check to see if
+        the PDS4 product associated with self includes that HDU's header as a
+        distinct data object. If it does, return the name we use for that
+        object. If not, return None.
         """
         from pdr.pds4_tools.reader.header_objects import HeaderStructure
 
@@ -735,13 +737,13 @@ class Data:
                 # 'object_length' key. label objects also do not
                 # have meta_data
                 continue
+            if v.parent_filename != filename:
+                continue
             meta = v.meta_data
             if 'object_length' not in meta.keys():
                 continue
             if meta['offset'] + meta['object_length'] == start_byte:
-                if 'name' not in meta.keys():
-                    return None
-                return meta['name'].replace(' ', '_')
+                return k
 
         return None
 
@@ -776,7 +778,10 @@ class Data:
             )
             if structure.is_header() is True:
                 return self._add_loaded_objects(result, object_name)
-            if (hid := self._find_fits_header_pds4_id(offset)) is not None:
+            hid = self._find_fits_header_pds4_id(
+                structure.parent_filename, offset
+            )
+            if hid is not None:
                 result[hid] = result.pop(f"{object_name}_HEADER")
             if structure.is_array() is True:
                 self._scaleflags[object_name] = True
-- 
2.43.0


From 463a95b73b2b3a9455c85d239637571d1b8f6a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 050/121] fix: raise an error for PDS4 arrays of one axis that
 are cut off

---
 pdr/pds4_tools/reader/read_arrays.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdr/pds4_tools/reader/read_arrays.py b/pdr/pds4_tools/reader/read_arrays.py
index 4c80e7c..3948c03 100644
--- a/pdr/pds4_tools/reader/read_arrays.py
+++ b/pdr/pds4_tools/reader/read_arrays.py
@@ -74,6 +74,11 @@ def _read_array_byte_data(array_structure, as_string=True, memmap=False):
         raise six.raise_from(IOError("Unable to read data from file '" + data_filename +
                                      "' found in label - {0}".format(e)), None)
 
+    # Arrays cannot be shorter than their label says
+    if len(data) < num_int8_elements:
+        raise ValueError("Unable to read data from file '" + data_filename + "' found in label - expected " +
+                         "{0} bytes, found {1}.".format(num_int8_elements, len(data)))
+
     # Convert to a byte string if requested
     if as_string:
         data = data.tostring()
-- 
2.43.0


From cbff0b17139032d4a447a6e38d90c3bf68c25e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 051/121] fix: apply PDS4 bit masks to signed integers and
 constants that do not match

---
 pdr/pds4_tools/reader/read_arrays.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pdr/pds4_tools/reader/read_arrays.py b/pdr/pds4_tools/reader/read_arrays.py
index 3948c03..8654f28 100644
--- a/pdr/pds4_tools/reader/read_arrays.py
+++ b/pdr/pds4_tools/reader/read_arrays.py
@@ -106,21 +106,22 @@ def _apply_bitmask(data, bit_mask_string, special_constants=None):
         return
 
     # Convert bit mask to binary (python assumes the input is a string describing the integer in MSB format,
-    # which is what the PDS4 standard specifies.)
-    bit_mask = int(bit_mask_string, 2)
+    # which is what the PDS4 standard specifies.) The most significant bit is the sign bit of signed integers.
+    unsigned = np.dtype('u{0}'.format(data.dtype.itemsize))
+    bit_mask = int(bit_mask_string, 2) & np.iinfo(unsigned).max
+    bit_mask = np.array(bit_mask, dtype=unsigned).astype(data.dtype)
 
     # Mask Special_Constants values so that bit mask application does not affect them
-    non_masked = np.arange(0, len(data))
+    non_masked = np.ones(len(data), dtype=bool)
     if special_constants is not None:
 
-        masked_data = mask_special_constants(data, special_constants=special_constants)
-        non_masked = np.where(masked_data.mask == False)
+        masked_data = mask_special_constants(np.array(data), special_constants=special_constants)
+        non_masked = ~np.ma.getmaskarray(masked_data)
 
         del masked_data
 
     # Apply bit mask to each datum
-    for i in np.nditer(non_masked, flags=['zerosize_ok']):
-        data[i] &= bit_mask
+    data[non_masked] &= bit_mask
 
 
 def new_array(input, no_scale=False, no_bitmask=False, masked=None, copy=True, **structure_kwargs):
-- 
2.43.0


From 052e5c170787e5710a7a51d087a99d3c9051c4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 052/121] fix: raise an error for PDS4 tables that are cut off

---
 pdr/pds4_tools/reader/read_tables.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdr/pds4_tools/reader/read_tables.py b/pdr/pds4_tools/reader/read_tables.py
index 91b5cc4..37a70b3 100644
--- a/pdr/pds4_tools/reader/read_tables.py
+++ b/pdr/pds4_tools/reader/read_tables.py
@@ -923,6 +923,11 @@ def read_table_data(table_structure, no_scale, decode_strings, masked):
                                             field['location'] - 1, record_length,
                                             array_shape, group_locations, repetition_lengths)
 
+            # Tables cannot be shorter than their label says (the last element is closest to the end of the file)
+            if extracted_data and len(extracted_data[-1]) < field['length']:
+                raise ValueError("Unable to read field '{0}' from file '{1}' found in label - the file ends "
+                                 "before the table does.".format(field['name'], table_structure.parent_filename))
+
         # Cast the byte data for this field into the appropriate data type
         try:
 
-- 
2.43.0


From 03b5a2031bf02a3848abf56b78801569732f47b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 053/121] fix: read PDS4 integers from the ends of their ranges

---
 pdr/pds4_tools/reader/data_types.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pdr/pds4_tools/reader/data_types.py b/pdr/pds4_tools/reader/data_types.py
index 1979da9..3e9f5af 100644
--- a/pdr/pds4_tools/reader/data_types.py
+++ b/pdr/pds4_tools/reader/data_types.py
@@ -522,8 +522,10 @@ def data_type_convert_table_ascii(data_type, data, mask_nulls=False, decode_stri
             data[data == '0'] = 0
 
             # Cast down numeric base integers if possible
-            if numeric_base != 10:
-                dtype = get_min_integer_numpy_type(data)
+            # (base 10 integers may be too large for their usual type)
+            min_dtype = get_min_integer_numpy_type(data)
+            if (numeric_base != 10) or not np.can_cast(min_dtype, dtype):
+                dtype = min_dtype
 
     # Decode PDS4 ASCII and UTF-8 strings into unicode/str
     elif decode_strings:
@@ -1108,6 +1110,8 @@ def get_min_integer_numpy_type(data):
         data_min = min(data)
         data_max = max(data)
 
+    # (the absolute value of the smallest integer of a NumPy dtype overflows)
+    data_min, data_max = int(data_min), int(data_max)
     abs_max = max(abs(data_min), abs(data_max))
 
     if abs_max <= 127:
@@ -1140,7 +1144,7 @@ def get_min_integer_numpy_type(data):
         else:
             dtype = 'int64'
 
-    elif abs_max <= 9223372036854775807:
+    elif (data_min >= -9223372036854775808) and (data_max <= 9223372036854775807):
         dtype = 'int64'
 
     elif (abs_max <= 18446744073709551615) and (data_min >= 0):
-- 
2.43.0


From e11cc55cce06f54e8b915912dd5bf064ec28c747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 054/121] fix: keep names of PDS4 columns that contain GROUP

---
 pdr/pdr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index c89ed1c..52c7c21 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -794,8 +794,10 @@ class Data:
             from pdr.pd_utils import structured_array_to_df
 
             df = structured_array_to_df(structure.data)
-            df.columns = df.columns.str.replace(r"GROUP_?\d+", "", regex=True)
-            df.columns = df.columns.str.strip(", ")
+            # names of fields begin with names of all groups they are in
+            df.columns = df.columns.str.replace(
+                r"(?:^|(?<=, ))GROUP_?\d+, ", "", regex=True
+            )
             setattr(self, object_name, df)
         # TODO: do other important cases exist?
         else:
-- 
2.43.0


From d1841939edb0d5f2bed07e4bc1f5e7c666c052fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 055/121] fix: leave numbers missing from PDS4 delimited tables
 missing

---
 pdr/pdr.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 52c7c21..1d8fb53 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -791,9 +791,16 @@ class Data:
 
             setattr(self, object_name, np.asarray(structure.data))
         elif structure.is_table():
+            import numpy as np
             from pdr.pd_utils import structured_array_to_df
 
             df = structured_array_to_df(structure.data)
+            if hasattr(structure.data, "mask"):
+                # numbers missing from delimited tables
+                nulls = structured_array_to_df(structure.data.mask)
+                for ix in np.flatnonzero(nulls.any()):
+                    column = df.iloc[:, ix].mask(nulls.iloc[:, ix])
+                    df.isetitem(ix, column)
             # names of fields begin with names of all groups they are in
             df.columns = df.columns.str.replace(
                 r"(?:^|(?<=, ))GROUP_?\d+, ", "", regex=True
-- 
2.43.0


From 4f1617712047ece88f85e6592bea8bc13f06fc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 056/121] fix: keep trailing zero bytes of PDS4 bit strings

---
 pdr/pdr.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 1d8fb53..7cf5d8e 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -801,6 +801,16 @@ class Data:
                 for ix in np.flatnonzero(nulls.any()):
                     column = df.iloc[:, ix].mask(nulls.iloc[:, ix])
                     df.isetitem(ix, column)
+            widths = []
+            for name in structure.data.dtype.names:
+                field = structure.data.dtype[name]
+                width = field.base.itemsize if field.base.kind == "S" else 0
+                widths += [width] * int(np.prod(field.shape))
+            for ix in np.flatnonzero(widths):
+                # numpy drops trailing zero bytes of bit strings
+                df.isetitem(
+                    ix, [v.ljust(widths[ix], b"\0") for v in df.iloc[:, ix]]
+                )
             # names of fields begin with names of all groups they are in
             df.columns = df.columns.str.replace(
                 r"(?:^|(?<=, ))GROUP_?\d+, ", "", regex=True
-- 
2.43.0


From 5cbdb975f189418b628f3aa3d7fd7b79d605abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 057/121] fix: recognize PDS4 labels by their extensions in any
 case

---
 pdr/pdr.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 7cf5d8e..aa7607d 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -296,8 +296,7 @@ class Data:
                 # TODO: bad. need to not leave this open, although inefficient
                 self._hdulist = fits.open(self.filename)
         elif (
-            str(self.labelname).endswith(".xml") 
-            or str(self.labelname).endswith(".lblx")
+            str(self.labelname).lower().endswith((".xml", ".lblx"))
             or ("CE" in str(self.labelname) and
                 str(self.labelname).endswith((".2BL", ".2AL", ".2CL", ".01L")))
         ):
-- 
2.43.0


From b0451b403a9d0bc7afc807011a9e2bf0cec52f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 058/121] fix: open images whose XMP packets, ICC profiles or
 GPS tags are not as expected

---
 pdr/pil_utils.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pdr/pil_utils.py b/pdr/pil_utils.py
index b7fc95b..5fdee5d 100644
--- a/pdr/pil_utils.py
+++ b/pdr/pil_utils.py
@@ -40,7 +40,10 @@ def unpack_icp(icp_blob: bytes):
 
 def add_gps_ifd(im: Image, gps_tagname: int):
     gpsdict = im.getexif().get_ifd(gps_tagname)
-    return {GPSTAGS[k].replace('GPS', ''): v for k, v in gpsdict.items()}
+    return {
+        GPSTAGS.get(k, str(k)).replace('GPS', ''): v
+        for k, v in gpsdict.items()
+    }
 
 
 def get_image_metadata(im: Image):
@@ -61,9 +64,19 @@ def get_image_metadata(im: Image):
         if name == 'GPSInfo':
             outdict |= add_gps_ifd(im, tag)
         elif name == 'XMLPacket':
-            outdict[name] = unpack_xml(ElementTree.fromstring(val))
+            # XMP packets may be padded, malformed, or not expressible in our
+            # idiom. don't let that keep anyone from opening the image.
+            try:
+                outdict[name] = unpack_xml(
+                    ElementTree.fromstring(val.rstrip(b"\0"))
+                )
+            except (AttributeError, SyntaxError, TypeError):
+                outdict[name] = val
         elif name == 'InterColorProfile':
-            outdict[name] = unpack_icp(val)
+            try:
+                outdict[name] = unpack_icp(val)
+            except OSError:
+                outdict[name] = val
         else:
             outdict[name] = val
     return outdict
-- 
2.43.0


From 57e70ccea87c179e9c134b3c5db4cbb339d4f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 059/121] fix: use the whole range of images that clipping
 leaves only one value of

---
 pdr/browsify.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 7c21d12..0ef2e69 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -82,13 +82,16 @@ def normalize_range(
         cheat_low, cheat_high = (clip, clip)
     range_min, range_max = bounds
     if isinstance(image, np.ma.MaskedArray):
-        minimum, maximum = find_masked_bounds(image, cheat_low, cheat_high)
-        if minimum is None:
-            return image
+        find_bounds = find_masked_bounds
     else:
-        minimum, maximum = find_unmasked_bounds(image, cheat_low, cheat_high)
-    if nice_clip is True and minimum == maximum:  # scaling was too intense
+        find_bounds = find_unmasked_bounds
+    minimum, maximum = find_bounds(image, cheat_low, cheat_high)
+    if minimum is None:
         return image
+    if nice_clip is True and minimum == maximum:  # scaling was too intense
+        minimum, maximum = find_bounds(image, 0, 0)
+        if minimum == maximum:
+            return image
     if not ((cheat_high is None) and (cheat_low is None)):
         if inplace is True:
             image = np.clip(image, minimum, maximum, out=image)
-- 
2.43.0


From ea9bb3194607d83010b10ef4dd60be79bf845306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 060/121] fix: render booleans, and numbers whose normalization
 does not fit their types

---
 pdr/browsify.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 0ef2e69..49b2b73 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -100,14 +100,14 @@ def normalize_range(
     if inplace is True:
         # perform the operation in-place
         image -= minimum
-        image *= range_max - range_min
         if image.dtype.char in np.typecodes["AllInteger"]:
             # this loss of precision is probably better than
             # automatically typecasting it.
             # TODO: detect rollover cases, etc.
+            image *= range_max - range_min
             image //= maximum - minimum
         else:
-            image /= maximum - minimum
+            image *= (range_max - range_min) / (maximum - minimum)
         image += range_min
         return image
     return (
@@ -280,9 +280,12 @@ def _render_array(
             "Rendering browse images requires the optional pillow dependency."
         )
 
-    # upcast integer data types < 32-bit to prevent unhelpful wraparound
-    if (obj.dtype.char in np.typecodes["AllInteger"]) and (obj.itemsize <= 2):
-        obj = obj.astype(np.int32)
+    # upcast boolean, integer, and half-precision data types to prevent
+    # unhelpful wraparound
+    if obj.dtype.char in np.typecodes["AllInteger"] + "?":
+        obj = obj.astype(np.int32 if obj.itemsize <= 2 else np.float64)
+    elif obj.dtype.char == "e":
+        obj = obj.astype(np.float32)
     # convert to unsigned eight-bit integer to make it easy to write
     obj = eightbit(obj, image_clip, purge, nice_clip)
     # unless color_fill is set to None, fill masked elements -- probably
-- 
2.43.0


From 693cc57ea51cfb489d44bb660470d738b57a6663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 061/121] fix: render images that contain invalid values

---
 pdr/browsify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 49b2b73..7f5daae 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -286,6 +286,9 @@ def _render_array(
         obj = obj.astype(np.int32 if obj.itemsize <= 2 else np.float64)
     elif obj.dtype.char == "e":
         obj = obj.astype(np.float32)
+    # invalid values have no place in an image's range
+    if obj.dtype.kind == "f" and not np.isfinite(obj).all():
+        obj = np.ma.masked_invalid(obj)
     # convert to unsigned eight-bit integer to make it easy to write
     obj = eightbit(obj, image_clip, purge, nice_clip)
     # unless color_fill is set to None, fill masked elements -- probably
-- 
2.43.0


From bdf7496d262e96e9180f35bb9f7dd41d139ba36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 062/121] fix: downsample browse images with very long and
 narrow axes

---
 pdr/browsify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 7f5daae..9b4a436 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -311,7 +311,7 @@ def _render_array(
             f"Axis length {max(obj.shape)} > JPEG encoder threshold of "
             f"65500; downsampling browse image to {scale * 100}%."
         )
-        image.thumbnail([int(axis * scale) for axis in image.size])
+        image.thumbnail([max(int(axis * scale), 1) for axis in image.size])
     image.save(f"{outbase}.{image_format}")
 
 
-- 
2.43.0


From 5465f21a2ae2ded558444f51873805238809f89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 063/121] fix: dump browse versions of objects with slashes in
 their names

---
 pdr/pdr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index aa7607d..3541d63 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -1151,7 +1151,9 @@ class Data:
         if outpath is None:
             outpath = Path(".")
         for obj in filter(lambda i: i in dir(self), self.index):
-            outfile = str(Path(outpath, f"{prefix}_{obj}"))
+            # FITS and PDS4 objects may have names like "I/F"
+            outname = re.sub(r"[/\\]", "_", f"{obj}")
+            outfile = str(Path(outpath, f"{prefix}_{outname}"))
             # no need to have all this mpl stuff in the namespace normally
             from pdr.browsify import browsify
 
-- 
2.43.0


From e6cdabd1e11d594a0c02e7ebc695de6b53e1b454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 064/121] fix: pickle arrays that cannot be rendered

---
 pdr/browsify.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 9b4a436..3e19d11 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -167,8 +167,18 @@ def browsify(obj: Any, outbase: Union[str, Path], **dump_kwargs) -> None:
     outbase = str(outbase)
     if isinstance(obj, np.recarray):
         _browsify_recarray(obj, outbase, **dump_kwargs)
+    elif isinstance(obj, np.ndarray) and obj.dtype.names is not None:
+        _browsify_recarray(obj, outbase, **dump_kwargs)
     elif isinstance(obj, np.ndarray):
-        if len(obj.shape) == 1:
+        if (
+            len(obj.shape) not in (1, 2, 3)
+            or obj.dtype.kind not in "biuf" and len(obj.shape) > 1
+            or obj.size == 0 and len(obj.shape) > 1
+        ):
+            # we have no idea how to make an image of this
+            with open(outbase + ".pkl", "wb") as stream:
+                pickle.dump(obj, stream)
+        elif len(obj.shape) == 1:
             pd.DataFrame(obj).to_csv(outbase + ".csv", index=False)
         else:
             _browsify_array(obj, outbase, **dump_kwargs)
@@ -203,7 +213,8 @@ def _browsify_recarray(obj: np.recarray, outbase: str, **_):
         # noinspection PyTypeChecker
         obj.to_csv(outbase + ".csv")
     except ValueError:
-        pickle.dump(obj, open(outbase + "_nested_recarray.pkl", "wb"))
+        with open(outbase + "_nested_recarray.pkl", "wb") as stream:
+            pickle.dump(obj, stream)
 
 
 def _browsify_array(
-- 
2.43.0


From a8a55a7e9b90bf8201dff1e9293ae4f6f216ebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 065/121] fix: dump single-row tables without converting their
 values

---
 pdr/browsify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 3e19d11..38c8e7a 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -184,8 +184,9 @@ def browsify(obj: Any, outbase: Union[str, Path], **dump_kwargs) -> None:
             _browsify_array(obj, outbase, **dump_kwargs)
     elif isinstance(obj, pd.DataFrame):
         if len(obj) == 1:
+            # values of different types must not be converted to one another's
             # noinspection PyTypeChecker
-            obj.T.to_csv(outbase + ".csv"),
+            obj.astype(object).T.to_csv(outbase + ".csv")
         else:
             obj.to_csv(outbase + ".csv")
     elif obj is None:
-- 
2.43.0


From 89464e0cf6ef79503822c97e4c9f3673c260a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 066/121] fix: keep valid elements of purged constant images
 out of the mask colour

---
 pdr/browsify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 38c8e7a..c72d0aa 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -97,6 +97,9 @@ def normalize_range(
             image = np.clip(image, minimum, maximum, out=image)
         else:
             image = np.clip(image, minimum, maximum)
+    if minimum == maximum:
+        # there is no range to stretch; dividing by it would mask everything
+        return image - minimum + range_min
     if inplace is True:
         # perform the operation in-place
         image -= minimum
-- 
2.43.0


From 2e5409e402014ccebdfecd6d0063fff0a4cc5bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 067/121] fix: keep a label's NULL constant when the type's
 implicit NULL occurs too

---
 pdr/_scaling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 5f1c216..63096cf 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -48,8 +48,10 @@ def find_special_constants(
     # in a value that won't conflict later
     if np.any(~np.isfinite(obj.data)):
         specials["INVALIDS"] = np.nan
+    # the label may use the same names for other values
     return specials | {
-        possibility: constant
+        f"IMPLICIT_{possibility}" if possibility in specials else possibility:
+        constant
         for possibility, constant in implicit_possibilities.items()
         if constant in obj
     }
-- 
2.43.0


From 79aeb38a00cfc4f7bcef1107613825b771fbda2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 068/121] fix: use Huygens table offsets only for Huygens
 products

---
 pdr/formats/checkers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 9afe5cd..9214f15 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -79,7 +79,8 @@ def check_special_offset(
     if (
         identifiers["INSTRUMENT_NAME"] == "DESCENT IMAGER SPECTRAL RADIOMETER"
         and identifiers["PRODUCT_TYPE"] == "RDR"
-        or disrsubs.search(identifiers["FILE_NAME"])
+        or identifiers["INSTRUMENT_HOST_NAME"] == "HUYGENS PROBE"
+        and disrsubs.search(identifiers["FILE_NAME"])
     ):
         return formats.cassini.get_offset(fn, identifiers)
     if (
-- 
2.43.0


From f0e9f5883bc574b673e0004a4b8e7404c1f5abde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 069/121] fix: find THEMIS files whose labels say they are
 gzipped

---
 pdr/formats/themis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/themis.py b/pdr/formats/themis.py
index 8fc8378..3e7cccf 100644
--- a/pdr/formats/themis.py
+++ b/pdr/formats/themis.py
@@ -47,7 +47,7 @@ def check_gzip_fn(data, object_name):
         return False, None
     filename = listify(target)[0]
     if filename.endswith("gz"):
-        return filename
+        return True, filename
     return True, [filename, f"{filename}.gz"]
 
 
-- 
2.43.0


From 29870d2ad1a27f5b1e99359ade770aeb929702b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 070/121] fix: read products whose identifiers are numbers,
 dates or quantities

---
 pdr/pdr.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 3541d63..3e9db5e 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -78,6 +78,11 @@ if TYPE_CHECKING:
     import pandas as pd
     from PIL.Image import Image
 
+NUMERIC_IDENTIFIERS = (
+    "FILE_RECORDS", "LABEL_RECORDS", "RECORD_BYTES", "ROW_BYTES", "ROWS"
+)
+"""members of DataIdentifiers that are not text"""
+
 
 class Metadata(MultiDict):
     """
@@ -190,10 +195,13 @@ class Metadata(MultiDict):
             field: self.metaget_(field, "")
             for field in get_annotations(DataIdentifiers)
         }
-        # it never does us any favors to have tuples or sets in here
+        # it never does us any favors to have tuples or sets in here, or
+        # anything but text in fields that special-case checks treat as text
         for k, v in identifiers.items():
             if isinstance(v, (tuple, set)):
                 identifiers[k] = str(v)
+            elif k not in NUMERIC_IDENTIFIERS and not isinstance(v, str):
+                identifiers[k] = str(v)
         return identifiers
 
     def __str__(self):
-- 
2.43.0


From ccf7e419330e398cbc69e4a1a9c3ad95a07c844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 071/121] fix: ignore directory names when choosing a label's
 encoding

---
 pdr/formats/checkers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 9214f15..c5b3eed 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -1415,17 +1415,19 @@ def check_special_label(fn: Union[str, Path]):
     loaders.datawrap.ReadLabel's dispatch to `read_label()`. Also used in
     `read_pvl()`.
     """
+    # names of directories say nothing about encoding
+    name = Path(fn).name
     if (
-            any(tag in fn for tag in ['CE1', 'CE2', 'CE3'])
-            and any(sfx in fn for sfx in ['.1A', '.1B', '.1C',
+            any(tag in name for tag in ['CE1', 'CE2', 'CE3'])
+            and any(sfx in name for sfx in ['.1A', '.1B', '.1C',
                                                 '.2A', '.2B', '.2C',
                                                 '.3A', '.3B', '.3C',
                                                 '.01', '.02', '.03'])
     ):
         return True, formats.change.special_label(fn)
     if (
-            ".TAB" in fn and "_DOY" in fn and
-            ("MAG_" in fn or "BIO_" in fn) and "_V1" in fn
+            ".TAB" in name and "_DOY" in name and
+            ("MAG_" in name or "BIO_" in name) and "_V1" in name
     ):
         return True, formats.vex_mag.special_label(fn)
     return False, None
-- 
2.43.0


From 00e95501cbeac4235294e87afe1ecb7f3a442142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 072/121] fix: read products whose labels lack what special
 cases look for

---
 pdr/formats/checkers.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index c5b3eed..daa53dc 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -213,7 +213,7 @@ def check_special_table_reader(
     if (
         identifiers["DATA_SET_ID"] == "ULY-J-GAS-5-SKY-MAPS-V1.0"
         and name == "TABLE"
-        and block["^STRUCTURE"] == "GASDATA.FMT"
+        and block.get("^STRUCTURE") == "GASDATA.FMT"
     ):
         return True, formats.ulysses.gas_table_loader(fn, fmtdef_dt)
     if (
@@ -263,7 +263,7 @@ def check_special_table_reader(
         return True, formats.voyager.lecp_table_loader(fn, fmtdef_dt)
     if (
         identifiers["DATA_SET_ID"] == "VG2-U-LECP-4-RDR-STEP-12.8MIN-V1.0"
-        and block["INTERCHANGE_FORMAT"] == "ASCII"
+        and block.get("INTERCHANGE_FORMAT") == "ASCII"
         and name == "TABLE"
     ):
         return True, formats.voyager.lecp_table_loader(fn, fmtdef_dt)
@@ -473,7 +473,7 @@ def check_special_structure(
     if (
         identifiers["DATA_SET_ID"] == "VG2-SS-PLS-4-SUMM-1HR-AVG-V1.0"
         and name == "TABLE"
-        and block["^STRUCTURE"] == "VGR_PLS_HR_2017.FMT"
+        and block.get("^STRUCTURE") == "VGR_PLS_HR_2017.FMT"
     ):
         return True, formats.voyager.get_structure(
             block, name, fn, data, identifiers
@@ -485,7 +485,8 @@ def check_special_structure(
     if (
         identifiers["DATA_SET_ID"] == "PHX-M-MECA-2-NIEDR-V1.0"
         and name == "TBL_TABLE"
-        and block["CONTAINER"]["^STRUCTURE"] == "TBL_0_STATE_DATA.FMT"
+        and block.get("CONTAINER", {}).get("^STRUCTURE")
+        == "TBL_0_STATE_DATA.FMT"
     ):
         return True, formats.phoenix.elec_em6_structure(
             block, name, fn, data, identifiers
@@ -501,7 +502,7 @@ def check_special_structure(
     if (
         identifiers["DATA_SET_ID"] == "PHX-M-TEGA-2-LEDEDR-V1.0"
         and name == "TIME_SERIES"
-        and block["^STRUCTURE"] == "TEGA_LED.FMT"
+        and block.get("^STRUCTURE") == "TEGA_LED.FMT"
     ):
         return True, formats.phoenix.led_edr_structure(
             block, name, fn, data, identifiers
@@ -509,7 +510,7 @@ def check_special_structure(
     if (
         identifiers["DATA_SET_ID"] == "PHX-M-TEGA-4-SCRDR-V1.0"
         and name == "TIME_SERIES"
-        and block["^STRUCTURE"] == "TEGA_SCRDR.FMT"
+        and block.get("^STRUCTURE") == "TEGA_SCRDR.FMT"
     ):
         return True, formats.phoenix.sc_rdr_structure(
             block, name, fn, data, identifiers
@@ -842,7 +843,7 @@ def check_special_block(
         return True, formats.lro.lamp_rdr_histogram_image_loader(data)
     if (
         identifiers["DATA_SET_ID"] == "LRO-L-MRFLRO-5-GLOBAL-MOSAIC-V1.0"
-        and "GLOBAL_S4_32PPD" in data.metaget_("PRODUCT_ID")
+        and "GLOBAL_S4_32PPD" in identifiers["PRODUCT_ID"]
         and name == "IMAGE"
     ):
         # typo in one of the labels
-- 
2.43.0


From 4260d63c47b394b075f706e8f0b2e1c76da21020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 073/121] fix: read Diviner level 4 tables of one row

---
 pdr/formats/diviner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/diviner.py b/pdr/formats/diviner.py
index ef0b803..9a46749 100644
--- a/pdr/formats/diviner.py
+++ b/pdr/formats/diviner.py
@@ -22,7 +22,7 @@ def diviner_l4_table_loader(fmtdef_dt, filename):
     import pandas as pd
 
     table = pd.DataFrame(
-        np.loadtxt(filename, delimiter=",", skiprows=1),
+        np.loadtxt(filename, delimiter=",", skiprows=1, ndmin=2),
         columns=[c for c in fmtdef_dt[0]["NAME"] if "PLACEHOLDER" not in c],
     )
     return table
-- 
2.43.0


From 226ce11a63a1b6e8db2be6a723808122e7955658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 074/121] fix: return the last reference clock of MCS DDR
 tables as a number

---
 pdr/formats/mro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/mro.py b/pdr/formats/mro.py
index af83aa2..4dceda8 100644
--- a/pdr/formats/mro.py
+++ b/pdr/formats/mro.py
@@ -102,7 +102,7 @@ def mcs_ddr_table_loader(block, filename, start_byte):
         "float64", "float64", "int64", "int64", "int64", "int64", "int64",
         "int64", "int64", "float64", "float64", "float64", "float64",
         "float64", "float64", "float64", "float64", "float64", "float64",
-        "float64", "string", "string", "string", "string", "string",
+        "float64", "float64", "string", "string", "string", "string",
         "string", "string", "string", "string", "string", "string", "string",
         "string", "string", "string", "string", "string", "string", "string",
         "string", "string", "string", "float64", "float64", "float64",
-- 
2.43.0


From fad63d732600b9fec0b1bdf6d9650ec734fab228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 075/121] fix: go on after incomplete record blocks of MCS DDR
 tables

---
 pdr/formats/mro.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pdr/formats/mro.py b/pdr/formats/mro.py
index 4dceda8..d7312bb 100644
--- a/pdr/formats/mro.py
+++ b/pdr/formats/mro.py
@@ -140,10 +140,9 @@ def mcs_ddr_table_loader(block, filename, start_byte):
                 # standard length of a data row
                 warnings.warn("DDR file has incomplete record blocks. "
                               "Searching for next metadata block.")
-                i -= 1
-                continue
+                break
             combined_rows.append(meta_fields + data_fields)
-        i += block_size
+            i += 1
     result = pd.DataFrame(combined_rows, columns=columns)
     result = result.astype(dtype=dtype_map)
 
-- 
2.43.0


From fbbaaac35ff1251700c18a53bdc1c464319c5912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 076/121] fix: allow placeholders in the format of Ulysses GAS
 tables

---
 pdr/formats/ulysses.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdr/formats/ulysses.py b/pdr/formats/ulysses.py
index be03bd8..e8d6672 100644
--- a/pdr/formats/ulysses.py
+++ b/pdr/formats/ulysses.py
@@ -16,8 +16,9 @@ def gas_table_loader(filename, fmtdef_dt):
     fmtdef, dt = fmtdef_dt
     # Some tables use tabs as column deliminators, others use spaces.
     table = pd.read_csv(filename, skiprows=17, sep=r"\s+", header=None)
-    assert len(table.columns) == len(fmtdef.NAME.tolist())
-    table.columns = fmtdef.NAME.tolist()
+    names = [c for c in fmtdef["NAME"] if "PLACEHOLDER" not in c]
+    assert len(table.columns) == len(names), "mismatched column count"
+    table.columns = names
     return table
 
 
-- 
2.43.0


From 292e8854772175ce928b6f45836e585ddfd3aa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 077/121] fix: take the bits of Galileo NIMS EDR columns from
 LSB bit strings

---
 pdr/formats/checkers.py |  5 +++++
 pdr/formats/galileo.py  | 15 +++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index daa53dc..b3b01fd 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -800,6 +800,11 @@ def check_special_bit_format(
                                                "SOLID STATE IMAGING SYSTEM")
     ):
         return formats.galileo.ssi_redr_bit_col_format(definition)
+    if (
+        identifiers["SPACECRAFT_NAME"] == "GALILEO_ORBITER"
+        and "-NIMS-2-EDR-V1.0" in identifiers["DATA_SET_ID"]
+    ):
+        return formats.galileo.nims_edr_bit_col_format(obj)
     return False, None
 
 
diff --git a/pdr/formats/galileo.py b/pdr/formats/galileo.py
index 366798f..833c379 100644
--- a/pdr/formats/galileo.py
+++ b/pdr/formats/galileo.py
@@ -70,6 +70,21 @@ def nims_edr_sample_type(base_samp_info):
     return False, None
 
 
+def nims_edr_bit_col_format(obj):
+    """
+    As in nims_edr_sample_type() above: BIT_STRING refers to LSB_BIT_STRING.
+    Without this, the bits would be taken out of big-endian bit strings.
+
+    HITS
+    * gal_nims
+        * pre_jup
+    """
+    if obj.get("DATA_TYPE") == "BIT_STRING":
+        obj["DATA_TYPE"] = "LSB_BIT_STRING"
+        return True, obj
+    return False, None
+
+
 def probe_structure(block, name, filename, data, identifiers):
     """
     Several NMS products have an incorrect BYTES value in one column.
-- 
2.43.0


From 2bb6eb2be44ecb2cb8f20f2e9ec7ed15d2a74589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 078/121] fix: allow placeholders in the format of Rosetta MIP
 tables

---
 pdr/formats/rosetta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/rosetta.py b/pdr/formats/rosetta.py
index 7a43945..4b4e5a4 100644
--- a/pdr/formats/rosetta.py
+++ b/pdr/formats/rosetta.py
@@ -10,7 +10,7 @@ def rosetta_table_loader(filename, fmtdef_dt):
 
     table = astropy.io.ascii.read(filename).to_pandas()
     fmtdef, dt = fmtdef_dt
-    table.columns = fmtdef["NAME"].to_list()
+    table.columns = [c for c in fmtdef["NAME"] if "PLACEHOLDER" not in c]
     return table
 
 
-- 
2.43.0


From 909b2ca581e8a7399c6f005df1be3945ef1a428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 079/121] fix: swap the sizes of WFF ATM images only once

---
 pdr/formats/ground.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/formats/ground.py b/pdr/formats/ground.py
index 3ca6b87..0d33d28 100644
--- a/pdr/formats/ground.py
+++ b/pdr/formats/ground.py
@@ -24,7 +24,9 @@ def wff_atm_special_block(data, name):
     * wff_atm
         * dem_img
     """
-    block = data.metablock_(name)
+    # the values are swapped in a copy so that they're not swapped back the
+    # next time this is called
+    block = data.metablock_(name).copy()
 
     if data.metaget_("PRODUCT_ID").startswith("S"):
         real_line_samples = block["LINES"]
-- 
2.43.0


From 5d2baa9a4caae53a14ecc749bd76d8527aa2756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 080/121] fix: shift the columns of Phoenix WCL EDR tables only
 once

---
 pdr/formats/phoenix.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdr/formats/phoenix.py b/pdr/formats/phoenix.py
index fb90c2a..52863ba 100644
--- a/pdr/formats/phoenix.py
+++ b/pdr/formats/phoenix.py
@@ -130,7 +130,11 @@ def wcl_edr_special_block(data, name):
     * phoenix
         * wcl_edr (partial)
     """
-    block = data.metablock_(name)
+    from copy import deepcopy
+
+    # the positions are changed in a copy so that they're not changed again the
+    # next time this is called
+    block = deepcopy(data.metablock_(name))
     
     for item in iter(block.items()):
         if "COLUMN" in item:
-- 
2.43.0


From 298a839e989f43dd1220b99fb6bb964b84929761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:20 +0000
Subject: [PATCH 081/121] fix: list the labels of Chang'e 3 VNIS products only
 once

---
 pdr/formats/checkers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index b3b01fd..04d21bd 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -1303,7 +1303,7 @@ def check_special_objects(identifiers: DataIdentifiers):
     ):
         # this would need to be modified if you could find the cal target data
         # Excel file and removed the bad characters from the label around it
-        return True, ['LABEL', 'IMAGE_PREFIX', 'IMAGE']
+        return True, ['IMAGE_PREFIX', 'IMAGE']
     if (
             identifiers["SPACECRAFT_NAME"] == "Chang'E-3 Rover"
             and "CE3_BMYK_VNIS-SC_SCI_N_" in identifiers["PRODUCT_ID"]
@@ -1311,7 +1311,7 @@ def check_special_objects(identifiers: DataIdentifiers):
     ):
         # this would need to be modified if you could find the cal target data
         # Excel file and removed the bad characters from the label around it
-        return True, ['LABEL', 'TABLE']
+        return True, ['TABLE']
     if (
             identifiers["SPACECRAFT_NAME"] == "Chang'E-3 Rover"
             and "CE3_BMYK_VNIS-SD_SCI_N_" in identifiers["PRODUCT_ID"]
@@ -1319,7 +1319,7 @@ def check_special_objects(identifiers: DataIdentifiers):
     ):
         # this would need to be modified if you could find the cal target data
         # Excel file and removed the bad characters from the label around it
-        return True, ['LABEL', 'TABLE']
+        return True, ['TABLE']
     return False, None
 
 
-- 
2.43.0


From febfbbff8faa1fa741f4ebc04dac79973796e38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 082/121] fix: swap only the suffix in the names of MSL EDR
 data files

---
 pdr/formats/msl_edr.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pdr/formats/msl_edr.py b/pdr/formats/msl_edr.py
index a2f94f7..7f3daec 100644
--- a/pdr/formats/msl_edr.py
+++ b/pdr/formats/msl_edr.py
@@ -61,12 +61,13 @@ def msl_msss_edr_prefix_fn(data):
     * msl_mrd
         * all
     """
-    target = data.filename
-    target = target.replace(".img", ".dat")
-    target = target.replace(".IMG", ".DAT")
-    target = target.replace(".lbl", ".dat")
-    target = target.replace(".LBL", ".DAT")
-    return True, target
+    # only the suffix: the rest of the path may contain ".img" etc. as well
+    target, suffix = os.path.splitext(data.filename)
+    suffix = suffix.replace(".img", ".dat")
+    suffix = suffix.replace(".IMG", ".DAT")
+    suffix = suffix.replace(".lbl", ".dat")
+    suffix = suffix.replace(".LBL", ".DAT")
+    return True, target + suffix
 
 
 def get_special_block(data, name):
-- 
2.43.0


From e4ba8cb1bf713df0a20526b403bb29ade4040c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 083/121] fix: do not have PIL load all truncated images after
 an MSL EDR

---
 pdr/formats/msl_edr.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pdr/formats/msl_edr.py b/pdr/formats/msl_edr.py
index 7f3daec..b8e4a5b 100644
--- a/pdr/formats/msl_edr.py
+++ b/pdr/formats/msl_edr.py
@@ -288,16 +288,21 @@ def read_jpeg_image(fp, dat_hdr) -> tuple["ndarray", int, int]:
     if soi == -1:
         raise ValueError("Could not find JPEG start or end markers.")
     jpeg_bytes = jpeg_data[soi:]
+    load_truncated = ImageFile.LOAD_TRUNCATED_IMAGES
     ImageFile.LOAD_TRUNCATED_IMAGES = True
-    img = Image.open(io.BytesIO(jpeg_bytes))
-    bands = len(img.getbands())
-    if bands != dat_hdr.bands:
-        # when there's a mismatch between number of bands in header and the
-        # image we use the number in the image
-        dat_hdr.bands = bands
-    # changes to pixel interleaved or L / grayscale for 1 band
-    img = img.convert('RGB') if bands == 3 else img.convert('L')
-    arr = np.array(img)
+    try:
+        img = Image.open(io.BytesIO(jpeg_bytes))
+        bands = len(img.getbands())
+        if bands != dat_hdr.bands:
+            # when there's a mismatch between number of bands in header and
+            # the image we use the number in the image
+            dat_hdr.bands = bands
+        # changes to pixel interleaved or L / grayscale for 1 band
+        img = img.convert('RGB') if bands == 3 else img.convert('L')
+        arr = np.array(img)
+    finally:
+        # this is a setting for the whole process
+        ImageFile.LOAD_TRUNCATED_IMAGES = load_truncated
     if bands == 1:
         arr = arr[:, :, np.newaxis]
     # look for more images -msss
-- 
2.43.0


From fee92f4cbf2a2e0513d84a65bc7ace8da381fe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 084/121] fix: do not go back to the start of the data of a
 truncated MOC fragment

---
 pdr/formats/mgs_moc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pdr/formats/mgs_moc.py b/pdr/formats/mgs_moc.py
index 0f30a0c..09d642b 100644
--- a/pdr/formats/mgs_moc.py
+++ b/pdr/formats/mgs_moc.py
@@ -892,7 +892,6 @@ def read_bits(bit_count: int, bit_stuff: BitStruct):
         while bit_queue_count < 24:
             if byte_count == queue_size:
                 if bit_queue_count >= bit_count:
-                    byte_count = 0
                     break
                 else:
                     raise ValueError(f"Unable to read bits: {bit_count}")
-- 
2.43.0


From 09435c53e40ae715a7264b48c75585f287a2ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 085/121] fix: search MOC line markers after the last one, in
 all of the data

---
 pdr/formats/mgs_moc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pdr/formats/mgs_moc.py b/pdr/formats/mgs_moc.py
index 09d642b..5d94c23 100644
--- a/pdr/formats/mgs_moc.py
+++ b/pdr/formats/mgs_moc.py
@@ -320,7 +320,6 @@ def pred_decode(
 
     height = h.down_total * 16
     width = h.edit_length * 16
-    length = width * height
     prev_line = bytearray(width)
     cur_line = bytearray(width)
     result = bytearray(height * width)
@@ -361,7 +360,7 @@ def pred_decode(
 
                 if got_sync != sync:
                     search_start = last_sync_pos
-                    search_len = length - search_start
+                    search_len = len(data) - search_start
                     found_offset = find_sync(data[search_start:], search_len,
                                              sync)
                     if found_offset is None:
@@ -371,8 +370,7 @@ def pred_decode(
 
                     else:
                         bit_stuff.output = search_start + found_offset
-                else:
-                    last_sync_pos = bit_stuff.output
+                last_sync_pos = bit_stuff.output
 
             pred_line_decompressor(cur_line,
                                    prev_line,
-- 
2.43.0


From 1738cee1de89d2a87966022482e09665a2ffdcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 086/121] fix: find CH-2 CLASS FITS files whatever dots their
 paths have

---
 pdr/formats/ch2_isro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/ch2_isro.py b/pdr/formats/ch2_isro.py
index 1aa869b..8817316 100644
--- a/pdr/formats/ch2_isro.py
+++ b/pdr/formats/ch2_isro.py
@@ -12,7 +12,7 @@ def read_class_fits_table(filename, object):
     from astropy.io import fits
 
     if filename.endswith(".xml"):
-        filename = filename.split('.')[0]+".fits"
+        filename = filename[:-len(".xml")] + ".fits"
     hdu = fits.open(filename)
     if object == 'data':
         # returns a recarray
-- 
2.43.0


From 3b1a6e108b4086fc8ec18dfcdb5f31cf460fb56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 087/121] fix: infer extents of Chang'e table columns from all
 of their rows

---
 pdr/formats/change.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdr/formats/change.py b/pdr/formats/change.py
index bc0aa5a..ea350f5 100644
--- a/pdr/formats/change.py
+++ b/pdr/formats/change.py
@@ -38,6 +38,8 @@ def read_change_fw_table(structure, fn):
     * change4
         * VNIS_SD_SCI_LVL2B
     """
+    import sys
+
     import pandas as pd
 
     cols = []
@@ -47,7 +49,9 @@ def read_change_fw_table(structure, fn):
     # if filename is label
     if fn[-1] == "L":
         fn = fn[:-1]
-    df = pd.read_fwf(fn, names=cols)
+    # infer the columns' extents from all rows, not just the first 100: values
+    # in later rows may be wider
+    df = pd.read_fwf(fn, names=cols, infer_nrows=sys.maxsize)
     return df
 
 
-- 
2.43.0


From 4ad90a045367a41a4b996809e2579a041825cc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:27 +0000
Subject: [PATCH 088/121] fix: do not leave PIL's limit of pixels deactivated

---
 pdr/loaders/handlers.py | 22 +++++++++++-----------
 pdr/pil_utils.py        | 17 +++++++++++++++++
 pdr/utils.py            |  6 ++++--
 3 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index 308f9b6..166ca62 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -169,17 +169,17 @@ def handle_compressed_image(
     import numpy as np
     from PIL import Image
 
-    # deactivate pillow's DecompressionBombError: many planetary images
-    # are legitimately very large
-    Image.MAX_IMAGE_PIXELS = None
-    im = Image.open(fn)
-    if frame is not None:
-        im.seek(frame)
-    if im.mode == 'P':
-        # images with imbedded palettes (usually GIFs)
-        im = im.convert('RGB', palette=im.palette)
-    # noinspection PyTypeChecker
-    image = np.ascontiguousarray(im).copy()
+    from pdr.pil_utils import unlimited_pixels
+
+    with unlimited_pixels():
+        im = Image.open(fn)
+        if frame is not None:
+            im.seek(frame)
+        if im.mode == 'P':
+            # images with imbedded palettes (usually GIFs)
+            im = im.convert('RGB', palette=im.palette)
+        # noinspection PyTypeChecker
+        image = np.ascontiguousarray(im).copy()
     # pillow reads images as [x, y, channel] rather than [channel, x, y]
     if len(image.shape) == 3:
         return np.ascontiguousarray(np.rollaxis(image, 2))
diff --git a/pdr/pil_utils.py b/pdr/pil_utils.py
index 5fdee5d..5bed915 100644
--- a/pdr/pil_utils.py
+++ b/pdr/pil_utils.py
@@ -6,6 +6,7 @@ TODO: not all of this ultimately goes here. Also, we might want to use opencv
 """
 from __future__ import annotations
 
+from contextlib import contextmanager
 from io import BytesIO
 import re
 from pathlib import Path
@@ -145,7 +146,23 @@ def unpack_xml(root: ElementTree.Element, remove_ns: bool = True) -> Any:
     return xmd
 
 
+@contextmanager
+def unlimited_pixels():
+    """
+    Temporarily deactivate pillow's DecompressionBombError: many planetary
+    images are legitimately very large. This is a setting of the whole process,
+    so don't leave it that way.
+    """
+    limit = Image.MAX_IMAGE_PIXELS
+    Image.MAX_IMAGE_PIXELS = None
+    try:
+        yield
+    finally:
+        Image.MAX_IMAGE_PIXELS = limit
+
+
 # TODO, maybe: decode ImageResources (see kings_river_canyon.tiff)
+@unlimited_pixels()
 def skim_image_data(fn: Union[str, Path]) -> dict:
     im, meta = Image.open(fn), {'fn': str(fn)}
     for attr in IMAGE_META_ATTRS:
diff --git a/pdr/utils.py b/pdr/utils.py
index da78e3b..06f5f50 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -269,9 +269,11 @@ def check_primary_fmt(data_filename: str) -> Union[str, None]:
             raise ModuleNotFoundError(
                 "Reading desktop image formats requires the 'pillow' library."
             )
-        Image.MAX_IMAGE_PIXELS = None
+        from pdr.pil_utils import unlimited_pixels
+
         try:
-            standard = Image.open(data_filename).format
+            with unlimited_pixels():
+                standard = Image.open(data_filename).format
             assert standard in DESKTOP_IMAGE_STANDARDS
         except (UnidentifiedImageError, AssertionError):
             return None
-- 
2.43.0


From eb75f28f6f1103ef27225f8c36476dd2fb58487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 089/121] fix: give back sys.excepthook after opening PDS4
 labels

---
 pdr/pdr.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 3e9db5e..28a3dca 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -16,6 +16,7 @@ from typing import (
     Union
 )
 import re
+import sys
 import warnings
 
 
@@ -348,9 +349,14 @@ class Data:
 
         import pdr.pds4_tools as pds4
 
-        structure_list = pds4.read(
-            self.labelname, lazy_load=True, quiet=True, no_scale=True
-        )
+        # pds4_tools takes over the handling of all uncaught exceptions
+        excepthook = sys.excepthook
+        try:
+            structure_list = pds4.read(
+                self.labelname, lazy_load=True, quiet=True, no_scale=True
+            )
+        finally:
+            sys.excepthook = excepthook
         ids = [s.id.replace(" ", "_") for s in structure_list.structures]
         # structures must not hide attributes of ours (or our label)
         reserved = {*dir(self), "metadata", "label"}
-- 
2.43.0


From 9a82a9885fc505b5e147f85f18c4f47fffdddb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:55 +0000
Subject: [PATCH 090/121] fix: raise an error for PDS4 delimited records
 without all values

---
 pdr/pds4_tools/reader/read_tables.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdr/pds4_tools/reader/read_tables.py b/pdr/pds4_tools/reader/read_tables.py
index 37a70b3..08b1251 100644
--- a/pdr/pds4_tools/reader/read_tables.py
+++ b/pdr/pds4_tools/reader/read_tables.py
@@ -601,6 +601,12 @@ def _get_delimited_records_and_start_bytes(records, table_structure, table_manif
                 start_bytes[column_idx][record_idx] = next_start_byte
                 next_start_byte += len(value) + 1
 
+        # Without a value for each column, the remaining start bytes would be arbitrary
+        if len(split_record) < num_columns:
+            raise ValueError("Unable to read record {0} of file '{1}' found in label - it has only {2} of {3} "
+                             "values.".format(record_idx + 1, table_structure.parent_filename,
+                                              len(split_record), num_columns))
+
         # Add an extra start byte, which actually acts only as the end byte for the last field
         start_bytes[-1][record_idx] = next_start_byte
 
-- 
2.43.0


From 8baa132bf409abc273c3579d5c698501e5898eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:52 +0000
Subject: [PATCH 091/121] fix: read text files that are compressed, and as
 UTF-8 in any locale

---
 pdr/loaders/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/text.py b/pdr/loaders/text.py
index 691b1a2..0515f7b 100644
--- a/pdr/loaders/text.py
+++ b/pdr/loaders/text.py
@@ -139,5 +139,5 @@ def ignore_if_pdf(fn: Union[str, Path]) -> Optional[str]:
     if looks_like_this_kind_of_file(fn, [".pdf"]):
         warnings.warn(f"Cannot open {fn}; PDF files are not supported.")
         return
-    # TODO: should use a context manager to avoid dangling file handles
-    return open(check_cases(fn)).read()
+    with decompress(check_cases(fn)) as file:
+        return TextIOWrapper(file, encoding="UTF-8").read()
-- 
2.43.0


From d680647a003c172a51ed71eac7c71e218188cff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 092/121] fix: write browse texts as UTF-8 in any locale

---
 pdr/browsify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index c72d0aa..ad5c4e9 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -195,12 +195,12 @@ def browsify(obj: Any, outbase: Union[str, Path], **dump_kwargs) -> None:
     elif obj is None:
         return
     elif "to_string" in dir(obj):  # probably an XML ElementTree interface
-        with open(outbase + ".xml", "w") as stream:
+        with open(outbase + ".xml", "w", encoding="utf-8") as stream:
             stream.write(obj.to_string())
     else:
         # this should usually work. it may need another backup binary blob
         # pickler for really weird binary objects.
-        with open(outbase + ".txt", "w") as stream:
+        with open(outbase + ".txt", "w", encoding="utf-8") as stream:
             stream.write(str(obj))
 
 
-- 
2.43.0


From 0f9d9e8bab1b1d0312bd5b315aeccdabf3b5da28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 093/121] fix: do not print to stdout when MCS DDR records are
 incomplete

---
 pdr/formats/mro.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pdr/formats/mro.py b/pdr/formats/mro.py
index d7312bb..160fc05 100644
--- a/pdr/formats/mro.py
+++ b/pdr/formats/mro.py
@@ -126,7 +126,6 @@ def mcs_ddr_table_loader(block, filename, start_byte):
                        rows[i].split(",")]
         if len(meta_fields) != 77:
             # standard length of a metadata row
-            print(meta_fields)
             warnings.warn("Metadata block missing from expected location in "
                           "the DDR file.")
             raise TypeError("Expected metadata row not found")
-- 
2.43.0


From 09321991b2fd47034a2e05306e7047413076b6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 094/121] fix: choose among off-case or compressed files
 whatever the order of their directory

---
 pdr/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/utils.py b/pdr/utils.py
index 06f5f50..dc4d750 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -92,7 +92,8 @@ def check_cases(
             return str(filename)
         if not path.parent.exists():
             continue
-        matches = tuple(
+        # (the order of directories is arbitrary)
+        matches = sorted(
             filter(
                 lambda p: stem_path(p) == Path(filename).name.lower(),
                 path.parent.iterdir(),
-- 
2.43.0


From 552add765395e2060dc182b38c7c0e63eaef1294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 095/121] fix: write sets of identifiers in the same order each
 time

---
 pdr/pdr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 28a3dca..f485160 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -199,7 +199,10 @@ class Metadata(MultiDict):
         # it never does us any favors to have tuples or sets in here, or
         # anything but text in fields that special-case checks treat as text
         for k, v in identifiers.items():
-            if isinstance(v, (tuple, set)):
+            if isinstance(v, set):
+                # (the order of a set is arbitrary)
+                identifiers[k] = f"{{{', '.join(sorted(map(repr, v)))}}}"
+            elif isinstance(v, tuple):
                 identifiers[k] = str(v)
             elif k not in NUMERIC_IDENTIFIERS and not isinstance(v, str):
                 identifiers[k] = str(v)
-- 
2.43.0


From db081eeadbed843fd98d5830029f4f971f3456c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 096/121] fix: read quoted text that contains backslashes

---
 pdr/parselabel/pds3.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 05db25f..503be87 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -319,7 +319,14 @@ def literalize_pvl(
             warnings.simplefilter("ignore", SyntaxWarning)
             if (not obj.startswith('"')) and ("#" in obj[1:3]):
                 return parse_non_base_10(obj)
-            literal = literal_eval(obj)
+            # other backslashes than those of PVL's format effectors are text
+            literal = literal_eval(
+                re.sub(
+                    r"\\([ntfv\\]?)",
+                    lambda m: m[0] if m[1] else r"\\",
+                    obj
+                )
+            )
             if isinstance(literal, Number) and "_" in obj:
                 # Python, but not PVL, ignores underscores between digits
                 return obj
-- 
2.43.0


From 10cd9b2bdaf9a896a0b547fa8047c2885366c549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:41 +0000
Subject: [PATCH 097/121] fix: give the elements of mixed and nested PVL
 collections their values

---
 pdr/parselabel/pds3.py | 54 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 503be87..a0c596b 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -181,6 +181,32 @@ def parse_pvl_quantity_object(obj: str) -> dict[str, Union[str, Number]]:
     }
 
 
+def split_pvl_elements(text: str) -> list[str]:
+    """
+    Split a PVL collection, or the text between its brackets, at the commas
+    that are neither within quotation marks nor in a nested collection.
+    """
+    if text.startswith(("(", "{")):
+        text = re.sub(r"[)}]\s*$", "", text[1:])
+    elements, depth, quote, previous = [""], 0, None, ","
+    for char in text:
+        if quote is not None:
+            quote = None if char == quote else quote
+        elif char in "\"'" and previous in ",({":
+            # (not an apostrophe in a word)
+            quote = char
+        elif char in "({":
+            depth += 1
+        elif char in ")}":
+            depth -= 1
+        if char == "," and depth == 0 and quote is None:
+            elements.append("")
+        else:
+            elements[-1] += char
+        previous = char if char.strip() else previous
+    return [element.strip() for element in elements]
+
+
 def parse_pvl_quantity_statement(statement: str) -> Any:
     """
     parse pvl statements including quantities. returns quantities as mappings.
@@ -188,20 +214,25 @@ def parse_pvl_quantity_statement(statement: str) -> Any:
     quantities, notably including tuples of the form '("A5.DAT", 1000 <BYTES>)'
     that are commonly used to specify start byte offsets for data objects.
     """
-    objects = statement.strip("()").split(",")
     output = []
-    for obj in objects:
+    for obj in split_pvl_elements(statement):
         # TODO, maybe: a bit redundant
-        if ("<" in obj) and (">" in obj):
+        if ("<" in obj) and (">" in obj) and obj[0] not in "\"'({":
             try:
                 output.append(parse_pvl_quantity_object(obj))
             except AttributeError:
                 # not actually-matched brackets
                 output.append(obj)
+        elif obj == statement:
+            output.append(obj)
         else:
             output.append(literalize_pvl(obj))
     if len(output) == 1:
         return output[0]
+    if statement.startswith("{") and not any(
+        isinstance(element, dict) for element in output
+    ):
+        return set(output)
     return tuple(output)
 
 
@@ -291,14 +322,17 @@ def parse_non_base_10_collection(
 def parse_unusual_collection(
     obj: str
 ) -> Union[tuple[Union[int, str]], set[Union[int, str]]]:
-    """Parse a PVL collection of non-base-10 numbers or unquoted strings."""
+    """
+    Parse a PVL collection with elements that are not Python literals, like
+    non-base-10 numbers or unquoted strings.
+    """
     class_ = set if obj.startswith('{') else tuple
     if re.match(r'.*\d{1,2}#', obj):
         try:
             return parse_non_base_10_collection(class_, obj)
         except (SyntaxError, ValueError):
             pass
-    return class_([s.strip(' ') for s in obj.strip('{}()').split(',')])
+    return class_(map(literalize_pvl, split_pvl_elements(obj)))
 
 
 def literalize_pvl(
@@ -327,17 +361,19 @@ def literalize_pvl(
                     obj
                 )
             )
-            if isinstance(literal, Number) and "_" in obj:
+            if "_" in obj and not isinstance(literal, str):
                 # Python, but not PVL, ignores underscores between digits
-                return obj
+                if isinstance(literal, Number):
+                    return obj
+                return parse_unusual_collection(obj)
             return literal
-    except (SyntaxError, ValueError):
+    except (SyntaxError, ValueError, TypeError):
         try:
             if ("<" in obj) and (">" in obj):
                 return parse_pvl_quantity_statement(obj)
             elif obj[0] in ('(', '{'):
                 return parse_unusual_collection(obj)
-        except (SyntaxError, ValueError):
+        except (SyntaxError, ValueError, TypeError):
             pass
         except IndexError:
             a = 1
-- 
2.43.0


From a519d35a0d9f3b464216500e2d398ea83b0483df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:44 +0000
Subject: [PATCH 098/121] fix: read integers with leading zeros as numbers

---
 pdr/parselabel/pds3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index a0c596b..b92811b 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -353,6 +353,9 @@ def literalize_pvl(
             warnings.simplefilter("ignore", SyntaxWarning)
             if (not obj.startswith('"')) and ("#" in obj[1:3]):
                 return parse_non_base_10(obj)
+            if re.fullmatch(r"[+-]?[0-9]+", obj):
+                # leading zeros are fine in PVL
+                return int(obj)
             # other backslashes than those of PVL's format effectors are text
             literal = literal_eval(
                 re.sub(
-- 
2.43.0


From bb4b8755ecd2e2234c4ce6540ea43e9e6ecbab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:02 +0000
Subject: [PATCH 099/121] fix: do not take text within quotation marks for
 comments in PVL

---
 pdr/parselabel/pds3.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index b92811b..30f5c29 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -26,6 +26,13 @@ PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT|$)")
 PVL_BLOCK_FINALS = ("END", "END_OBJECT", "END_GROUP")
 PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE][+-]?\d+)?)|NULL|UNK|N/A")
 PVL_QUANTITY_UNITS = re.compile(r"<(.*)>")
+PVL_TEXT_OR_COMMENT = re.compile(
+    # text, unless a missing quotation mark lets it run into other statements
+    r'(?P<text>"[^"\n]*'
+    r'(\n(?![ \t]*(?![ \t])([^a-z\n]{8}[^\n]*|[^a-z\n]{0,7})=)[^"\n]*)*")'
+    r"|/\*.*?(\r|\n|/\*)"
+)
+"""regex pattern for comments, and for text that may look like them"""
 
 STRUCTUREPAT = re.compile(r"\^(?:(?:\w|_)+_)?STRUCTURE$")
 """regex pattern for format file pointers"""
@@ -141,7 +148,9 @@ def parse_pvl(
     label: str, deduplicate_pointers: bool = True
 ) -> tuple[MultiDict[str, Any], list[str]]:
     """Parse a PVL-text into a MultiDict and a flattened list of keys."""
-    uncommented_label = re.sub(r"/\*.*?(\r|\n|/\*)", "\n", label)
+    uncommented_label = re.sub(
+        PVL_TEXT_OR_COMMENT, lambda m: m["text"] or "\n", label
+    )
     trimmed_lines = filter(
         None, map(lambda line: line.strip(), uncommented_label.split("\n"))
     )
-- 
2.43.0


From cd8da9dd783ddb818f888205a71dd65809953eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:03 +0000
Subject: [PATCH 100/121] fix: report format files that reference themselves
 instead of reading on forever

---
 pdr/loaders/queries.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 1d769eb..b6ee8af 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -728,8 +728,7 @@ def read_format_block(
         f"BLOCK_REPETITIONS": block.get("REPETITIONS", 1),
         f"BLOCK_BYTES": block.get("BYTES")
     }
-    while any(STRUCTUREPAT.match(obj[0]) for obj in format_block):
-        format_block = inject_format_files(format_block, object_name, fn, data)
+    format_block = inject_format_files(format_block, object_name, fn, data)
     fields, needs_placeholder, add_placeholder, reps = [], False, False, None
     for item_type, definition in format_block:
         if item_type not in PDS3_STRUCTURED_DATA_PARAMETERS:
@@ -827,12 +826,14 @@ def inject_format_files(
     block: list[tuple[str, Any]],
     name: str,
     fn: str,
-    data: PDRLike
+    data: PDRLike,
+    parents: tuple[str, ...] = ()
 ) -> list[tuple[str, Any]]:
     """
     Load format files referenced by a TABLE/SPREADSHEET/CONTAINER/COLLECTION
     definition (or recursively referenced by a referenced format file), parse
-    them, and insert them into the referencing definition.
+    them, and insert them into the referencing definition. `parents` are the
+    format files that the definition itself is from.
     """
     format_fns = {
         ix: kv[1] for ix, kv in enumerate(block) if STRUCTUREPAT.match(kv[0])
@@ -842,6 +843,8 @@ def inject_format_files(
     assembled_structure = []
     last_ix = 0
     for ix, format_fn in format_fns.items():
+        if format_fn in parents:
+            raise ValueError(f"Format file {format_fn} references itself.")
         fmt = list(load_format_file(data, format_fn, name, fn).items())
         # if the block is itself a TABLE, assume that it's intended to unpack
         # into a parent object, like a LINE_PREFIX_TABLE on an image
@@ -851,6 +854,7 @@ def inject_format_files(
             and isinstance(fmt[0][1], Mapping)
         ):
             fmt = list(fmt[0][1].items())
+        fmt = inject_format_files(fmt, name, fn, data, (*parents, format_fn))
         assembled_structure += block[last_ix:ix] + fmt
         last_ix = ix + 1
     assembled_structure += block[last_ix:]
-- 
2.43.0


From 07637726871fb665acb9e256151f68b393265800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:20 +0000
Subject: [PATCH 101/121] fix: take the same one of equally similar names in
 metaget_fuzzy

---
 pdr/pdr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index f485160..2faa0ac 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -148,7 +148,7 @@ class Metadata(MultiDict):
         """Like `metaget()`, but fuzzy-matches key names."""
         import Levenshtein as lev
         levratio = {
-            key: lev.ratio(key, text) for key in set(self.fieldcounts.keys())
+            key: lev.ratio(key, text) for key in self.fieldcounts.keys()
         }
         if levratio == {}:
             return None
-- 
2.43.0


From 147ed3cb5a308afacc34b619fb4646d900852d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:20 +0000
Subject: [PATCH 102/121] fix: prefer the same file of compressed and
 uncompressed ones

---
 pdr/pdr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 2faa0ac..a9cf759 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -515,9 +515,9 @@ class Data:
         mentioned for that object in the label, including those not given as
         top-level pointers.
         """
-        compkeys = {"COMPRESSED_FILE", "UNCOMPRESSED_FILE"}
+        compkeys = ("UNCOMPRESSED_FILE", "COMPRESSED_FILE")
         if (
-            len(compkeys.intersection(self.metadata.keys())) == 2
+            all(k in self.metadata.keys() for k in compkeys)
             and object_name in self.metablock_("UNCOMPRESSED_FILE").keys()
         ):
             blocks = filter(None, [self.metaget_(k) for k in compkeys])
-- 
2.43.0


From 79898264c9617137f4dc1273213c2f5609dda6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:20 +0000
Subject: [PATCH 103/121] fix: do not hide HDUs whose names are those of
 headers

---
 pdr/pdr.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index a9cf759..a28743e 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -694,6 +694,11 @@ class Data:
         obj = handle_fits_file(
             self.filename, object_name, hdu_ix, hdulist, hdu_id_is_index=True
         )
+        # the header's name may also be the name of another HDU
+        obj = {
+            k: v for k, v in obj.items()
+            if k == object_name or k not in self._hdumap
+        }
         if obj.__class__.__name__ == "ndarray":
             self._scaleflags[object_name] = True
         return obj
-- 
2.43.0


From e5e3d6433c5aa007be02ad995cb094f1e1a9c138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:29 +0000
Subject: [PATCH 104/121] fix: number repeated names so that none becomes one
 of the others

---
 pdr/loaders/handlers.py | 12 ++++++++----
 pdr/parselabel/pds3.py  | 11 ++++++-----
 pdr/pd_utils.py         |  3 ++-
 pdr/utils.py            | 12 +++++++++++-
 4 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index 166ca62..c251e19 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -12,6 +12,8 @@ import warnings
 from cytoolz import groupby
 from multidict import MultiDict
 
+from pdr.utils import number_names
+
 if TYPE_CHECKING:
     from pathlib import Path
     from astropy.io import fits
@@ -154,8 +156,9 @@ def reindex_dupe_names(hdu: BinTableHDU):
     repeats = {n for n in names if names.count(n) > 1}
     for r in repeats:
         indices = [ix for ix, n in enumerate(names) if n == r]
-        for i, ix in enumerate(indices):
-            hdu.columns[ix].name += f"_{i}"
+        new_names = number_names(r, len(indices), set(names))
+        for ix, new_name in zip(indices, new_names):
+            hdu.columns[ix].name = names[ix] = new_name
 
 
 def handle_compressed_image(
@@ -320,8 +323,9 @@ def unpack_fits_headers(
             headerdict.add(name, handle_dubious_fits_header(hdulist, hdu_ix))
             hdumap[name] = hdu_ix
             continue
-        for ix, hdu in enumerate(group):
-            hdu_ix, hdu_name = hdu[0], f'{name}_{ix}'
+        hdu_names = number_names(name, len(group), {*namegroups, *hdumap})
+        for hdu, hdu_name in zip(group, hdu_names):
+            hdu_ix = hdu[0]
             headerdict.add(
                 hdu_name, handle_dubious_fits_header(hdulist, hdu_ix)
             )
diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 30f5c29..3018a7c 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -19,7 +19,7 @@ from multidict import MultiDict
 
 from pdr.formats.checkers import check_special_label
 from pdr.parselabel.utils import trim_label, DEFAULT_PVL_LIMIT
-from pdr.utils import decompress
+from pdr.utils import decompress, number_names
 
 PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
 PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT|$)")
@@ -463,12 +463,13 @@ def index_duplicate_pointers(
                 )
             else:
                 depoint = False
-            for ix in range(len(group)):
-                indexed_pointer = f"{pointer}_{ix}"
+            indexed_pointers = number_names(pointer, len(group), params)
+            indices = [int(p.rsplit("_", 1)[1]) for p in indexed_pointers]
+            for ix, indexed_pointer in zip(indices, indexed_pointers):
                 mapping = multidict_dig_and_edit(
                     input_multidict=mapping,
                     target=pointer,
-                    input_object=list(range(len(group))),
+                    input_object=list(indices),
                     setter_function=set_key_index,
                     key_editor=True,
                 )
@@ -480,7 +481,7 @@ def index_duplicate_pointers(
                     mapping = multidict_dig_and_edit(
                         input_multidict=mapping,
                         target=depointer,
-                        input_object=list(range(len(group))),
+                        input_object=list(indices),
                         setter_function=set_key_index,
                         key_editor=True,
                     )
diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 4d3396d..b60a5cf 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -19,6 +19,7 @@ from pdr.formats import check_special_sample_type
 from pdr.np_utils import (
     enforce_order_and_object, ibm32_to_np_f32, ibm64_to_np_f64
 )
+from pdr.utils import number_names
 
 if TYPE_CHECKING:
     from pdr.pdrtypes import DataIdentifiers
@@ -48,7 +49,7 @@ def reindex_df_values(df: pd.DataFrame, column="NAME") -> pd.DataFrame:
         # TODO: check what this is hitting.
         if name == "RESERVED":
             name = f"RESERVED_{field_group['START_BYTE'].iloc[0]}"
-        names = [f"{name}_{ix}" for ix in range(len(field_group))]
+        names = number_names(name, len(field_group), set(df[column]))
         df.loc[field_group.index, column] = names
     return df
 
diff --git a/pdr/utils.py b/pdr/utils.py
index dc4d750..18b79f9 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 from io import BytesIO
-from itertools import chain
+from itertools import chain, count, islice
 from numbers import Number
 from pathlib import Path
 import struct
@@ -149,6 +149,16 @@ def append_repeated_object(
     return fields
 
 
+def number_names(
+    name: str, n_names: int, taken: Collection[str]
+) -> list[str]:
+    """
+    Make names from `name` and ascending integers, skipping names in `taken`.
+    """
+    candidates = (f"{name}_{ix}" for ix in count())
+    return list(islice((c for c in candidates if c not in taken), n_names))
+
+
 def import_best_gzip():
     """"""
     try:
-- 
2.43.0


From d1e4d8b73edcad3c1ed1209688690d69b07f35b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:29 +0000
Subject: [PATCH 105/121] fix: keep columns of tables which are named
 PLACEHOLDER

---
 pdr/loaders/table.py | 25 +++++++++++++++++--------
 pdr/pd_utils.py      |  2 +-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 32639b8..f3af942 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -68,10 +68,18 @@ def read_array(fn, block, start_byte, fmtdef_dt):
     return array
 
 
-def _drop_placeholders(table: pd.DataFrame) -> pd.DataFrame:
-    return table.drop(
-        [k for k in table.keys() if "PLACEHOLDER" in k], axis=1
-    )
+def _placeholder_names(fmtdef: pd.DataFrame) -> list[str]:
+    """
+    Get the names of the pseudo-columns in a format definition that only
+    stand for space between columns (columns may also be named PLACEHOLDER).
+    """
+    if "DATA_TYPE" not in fmtdef.columns:
+        return []
+    return fmtdef.loc[
+        fmtdef["NAME"].str.startswith("PLACEHOLDER_")
+        & (fmtdef["DATA_TYPE"] == "VOID"),
+        "NAME"
+    ].tolist()
 
 
 def read_table(
@@ -92,14 +100,15 @@ def read_table(
             fn, fmtdef, block, table_props
         )
         if len(table.columns) != len(fmtdef):
+            placeholders = _placeholder_names(fmtdef)
             table.columns = [
-                f for f in fmtdef['NAME'] if not f.startswith('PLACEHOLDER')
-        ]
+                f for f in fmtdef['NAME'] if f not in placeholders
+            ]
         else:
             table.columns = fmtdef['NAME']
     else:
         table = _interpret_as_binary(fn, fmtdef, dt, block, start_byte)
-    table = _drop_placeholders(table)
+    table = table.drop(columns=_placeholder_names(fmtdef), errors="ignore")
     # If there is an offset and/or scaling factor, apply them:
     if fmtdef.get("OFFSET") is not None or fmtdef.get("SCALING_FACTOR") is not None:
         for col in table.columns:
@@ -163,7 +172,7 @@ def _read_as_delimited(
     #  read_csv() instead of read_fwf(), which is generally preferable
     #  because read_fwf() is very slow. This may also be able to invalidate
     #  some special cases; should check.
-    n_place = len(fmtdef.loc[fmtdef.NAME.str.contains('PLACEHOLDER')])
+    n_place = len(_placeholder_names(fmtdef))
     if len(table.columns) + n_place != len(fmtdef.NAME.tolist()):
         raise IndexError("Mismatched column length.")
     for c, d in zip(table.columns, table.dtypes):
diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index b60a5cf..e1ef3dd 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -144,7 +144,7 @@ def compute_offsets(fmtdef: pd.DataFrame) -> pd.DataFrame:
         pad_length += fmtdef["ROW_SUFFIX_BYTES"].iloc[0]
     if pad_length > 0:
         placeholder_rec = {
-            "NAME": "PLACEHOLDER_0",
+            "NAME": number_names("PLACEHOLDER", 1, set(fmtdef["NAME"]))[0],
             "DATA_TYPE": "VOID",
             "BYTES": pad_length,
             "START_BYTE": end_byte,
-- 
2.43.0


From fb544436643c17da2f3c84c5386b69b1e4bd6b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:29 +0000
Subject: [PATCH 106/121] fix: read tables whose columns have numbers as names

---
 pdr/loaders/queries.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index b6ee8af..3fb6296 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -645,6 +645,12 @@ def read_table_structure(
     fmtdef = pd.DataFrame.from_records(fields)
     if "NAME" not in fmtdef.columns:
         fmtdef["NAME"] = name
+    # names that are not in quotation marks may look like numbers
+    for key in {"NAME", "BLOCK_NAME"}.intersection(fmtdef.columns):
+        fmtdef[key] = [
+            str(n) if isinstance(n, Number) and not pd.isna(n) else n
+            for n in fmtdef[key]
+        ]
     # give columns unique names so that none of our table handling explodes
     return reindex_df_values(fmtdef)
 
-- 
2.43.0


From 9c3f29c77dd56f2f2b814709d79feef6928c2263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:30 +0000
Subject: [PATCH 107/121] fix: take only padding for padding, not columns named
 PLACEHOLDER

---
 pdr/pd_utils.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index e1ef3dd..a0195bd 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -72,6 +72,19 @@ def _apply_item_offsets(fmtdef: pd.DataFrame) -> pd.Series:
     return item_offsets
 
 
+def _is_padding(fmtdef: pd.DataFrame) -> pd.Series:
+    """
+    Which pseudo-fields of a format definition only stand for unused bytes at
+    the end of the row? (fields may also be named PLACEHOLDER)
+    """
+    padding = fmtdef["NAME"].str.startswith("PLACEHOLDER_", na=False)
+    if "DATA_TYPE" not in fmtdef.columns:
+        return padding & False
+    return (
+        padding & (fmtdef["DATA_TYPE"] == "VOID") & fmtdef["BLOCK_NAME"].isna()
+    )
+
+
 def compute_offsets(fmtdef: pd.DataFrame) -> pd.DataFrame:
     """
     PDS3 TABLE/SPREADSHEET/ARRAY specifications do not explicitly give the
@@ -88,9 +101,7 @@ def compute_offsets(fmtdef: pd.DataFrame) -> pd.DataFrame:
     fmtdef["SB_OFFSET"] = fmtdef["START_BYTE"].astype(int) - 1
     if "ROW_PREFIX_BYTES" in fmtdef.columns:
         fmtdef["SB_OFFSET"] += fmtdef["ROW_PREFIX_BYTES"]
-    block_names = fmtdef.loc[
-        fmtdef['NAME'] != "PLACEHOLDER_0", "BLOCK_NAME"
-    ].unique()
+    block_names = fmtdef.loc[~_is_padding(fmtdef), "BLOCK_NAME"].unique()
     # calculate offsets for formats loaded in by reference
     for block_name in block_names[1:]:
         if block_name in ("PLACEHOLDER_None", f"PLACEHOLDER_{block_names[0]}"):
@@ -211,10 +222,7 @@ def construct_nested_array_format(fmtdef: pd.DataFrame) -> pd.DataFrame:
     ARRAY objects can be deeply nested. This function computes the correct
     byte offsets and dtypes (including array shape) for any nested subelements.
     """
-    block_names = (
-        fmtdef.loc[fmtdef["NAME"] != "PLACEHOLDER_0", "BLOCK_NAME"]
-        .unique()[1:]
-    )
+    block_names = fmtdef.loc[~_is_padding(fmtdef), "BLOCK_NAME"].unique()[1:]
     for block_name in block_names:
         if block_name == "":
             continue
-- 
2.43.0


From b0bab58c32991f72374a5e81e384408c7ec539f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:52 +0000
Subject: [PATCH 108/121] fix: find compressed files whose own names the label
 gives in another case

---
 pdr/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdr/utils.py b/pdr/utils.py
index 18b79f9..adea46d 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -92,10 +92,11 @@ def check_cases(
             return str(filename)
         if not path.parent.exists():
             continue
-        # (the order of directories is arbitrary)
+        # (the order of directories is arbitrary; the name may be that of a
+        # compressed file itself)
         matches = sorted(
             filter(
-                lambda p: stem_path(p) == Path(filename).name.lower(),
+                lambda p: path.name.lower() in (stem_path(p), p.name.lower()),
                 path.parent.iterdir(),
             )
         )
-- 
2.43.0


From fb6c80c75539d8d237b6795b5d11e6fb6282a27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:09 +0000
Subject: [PATCH 109/121] fix: find the labels of compressed files

---
 pdr/utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pdr/utils.py b/pdr/utils.py
index adea46d..80c5690 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -253,11 +253,17 @@ def associate_label_file(
     elif any(f"ce{m}" in data_filename.lower() for m in "123456") and\
             data_filename.lower().endswith(CHANG_LBL_EXTENSIONS):
         return check_cases(data_filename)
-    for lext in LABEL_EXTENSIONS:
-        try:
-            return check_cases(with_extension(data_filename, lext))
-        except FileNotFoundError:
-            continue
+    stems = [data_filename]
+    path = Path(data_filename)
+    if path.suffix.lower() in SUPPORTED_COMPRESSION_EXTENSIONS:
+        # labels are named after what is in compressed files
+        stems.append(str(path.with_suffix("")))
+    for stem in stems:
+        for lext in LABEL_EXTENSIONS:
+            try:
+                return check_cases(with_extension(stem, lext))
+            except FileNotFoundError:
+                continue
     return None
 
 
-- 
2.43.0


From a25b3a7f0b616ea1ab65bdbf04ddb9f4e37d2e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:29 +0000
Subject: [PATCH 110/121] fix: shape the arrays within arrays that have several
 axes

---
 pdr/pd_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index a0195bd..57a1a93 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -232,9 +232,12 @@ def construct_nested_array_format(fmtdef: pd.DataFrame) -> pd.DataFrame:
         prior_idx = fmt_block.index[0] - 1
         prior = fmtdef.loc[prior_idx]
         axis_items = prior.get("AXIS_ITEMS", np.nan)
-        if pd.isna(axis_items):
+        if isinstance(axis_items, (list, tuple)):
+            axis_items = tuple(map(int, axis_items))
+        elif pd.isna(axis_items):
             continue
-        axis_items = int(axis_items)
+        else:
+            axis_items = int(axis_items)
         # Compute the dtype using a copy of the block with SB_OFFSET adjusted,
         # instead of mutating a view-backed slice (SettingWithCopy).
         fmt_block_rel = fmt_block.copy()
-- 
2.43.0


From 383e1905aa26306616f920ce1c7df804fb61deb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 111/121] fix: treat blank numbers in delimited tables as
 missing values

---
 pdr/loaders/table.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index f3af942..d4e9693 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -179,6 +179,29 @@ def _read_as_delimited(
         # string data is "object" in pandas < 3 and "str" in pandas > 3
         if d.name in ("object", 'str'):
             table[c] = table[c].str.strip(PAD_CHARACTERS)
+    return _fill_blank_numbers(table, fmtdef)
+
+
+def _fill_blank_numbers(
+    table: pd.DataFrame, fmtdef: pd.DataFrame
+) -> pd.DataFrame:
+    """
+    pandas reads numeric columns as text if some of their elements consist of
+    blanks. Treat these elements as missing values.
+    """
+    if "DATA_TYPE" not in fmtdef.columns:
+        return table
+    placeholders = _placeholder_names(fmtdef)
+    data_types = fmtdef.loc[~fmtdef["NAME"].isin(placeholders), "DATA_TYPE"]
+    for c, data_type in zip(table.columns, data_types):
+        if not re.search("INTEGER|REAL|FLOAT", str(data_type)):
+            continue
+        if pd.api.types.is_numeric_dtype(table[c]) or not any(table[c] == ""):
+            continue
+        try:
+            table[c] = pd.to_numeric(table[c])
+        except (TypeError, ValueError):
+            pass
     return table
 
 
-- 
2.43.0


From bcc40261a63b9e594cbf3359b8181e0e2edc5928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:54 +0000
Subject: [PATCH 112/121] fix: read binary tables that contain numbers written
 as text

---
 pdr/loaders/queries.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 3fb6296..bfba684 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -570,8 +570,13 @@ def _probably_ascii(block: MultiDict, fmtdef: pd.DataFrame, name: str) -> bool:
     Attempt to determine whether a TABLE is ASCII from its label block and
     format definition.
     """
+    types = fmtdef["DATA_TYPE"]
+    # binary tables may also contain numbers written as text
+    binary = block.get("INTERCHANGE_FORMAT") == "BINARY" and types.str.contains(
+        "BIT_STRING|UNSIGNED|^(?:MSB|LSB|PC|VAX|SUN|MAC|IEEE|IBM)[_ ]"
+    ).any()
     return (
-        fmtdef["DATA_TYPE"].str.contains("ASCII").any()
+        (types.str.contains("ASCII").any() and not binary)
         or looks_like_ascii(block, name)
     )
 
-- 
2.43.0


From 4a1a8b145d1be576067446f1135beb58df204436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:54 +0000
Subject: [PATCH 113/121] fix: scale unsigned 64-bit integers in tables without
 overflow

---
 pdr/loaders/table.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index d4e9693..50fe050 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -117,8 +117,9 @@ def read_table(
                 record.get(k) and not pd.isnull(record.get(k))
                 for k in ("SCALING_FACTOR", "OFFSET")
             ):
-                # prevent overflow of narrow integer types
-                table[col] = table[col].astype("int64")
+                # prevent overflow of narrow or unsigned integer types
+                big = (table[col] > np.iinfo("int64").max).any()
+                table[col] = table[col].astype("float64" if big else "int64")
             if record.get("SCALING_FACTOR") and not pd.isnull(record.get("SCALING_FACTOR")):
                 table[col] = table[col].mul(record["SCALING_FACTOR"])
             else:
-- 
2.43.0


From 5660bb4be4b7307e23db56a008c20ff373a8605f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:54 +0000
Subject: [PATCH 114/121] fix: read binary integers of widths unknown to numpy
 in tables

---
 pdr/datatypes.py     | 10 ++++++++++
 pdr/loaders/table.py |  3 ++-
 pdr/pd_utils.py      | 31 ++++++++++++++++++++++++++++---
 3 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/pdr/datatypes.py b/pdr/datatypes.py
index a6233b9..4722cc4 100644
--- a/pdr/datatypes.py
+++ b/pdr/datatypes.py
@@ -46,6 +46,16 @@ def determine_byte_order(sample_type: str) -> ByteOrder:
     return ">"
 
 
+def is_odd_integer(sample_type: str, sample_bytes: int) -> bool:
+    """Is this a binary integer of a width that has no numpy equivalent?"""
+    return (
+        ("INTEGER" in sample_type)
+        and ("ASCII" not in sample_type)
+        and (sample_bytes > 2)
+        and (sample_bytes not in (4, 8))
+    )
+
+
 def sample_types(
     sample_type: str, sample_bytes: int, for_numpy: bool = False
 ) -> str:
diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 50fe050..99fc2f6 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -20,7 +20,7 @@ from pdr.loaders.queries import get_array_num_items
 from pdr.np_utils import np_from_buffered_io, enforce_order_and_object
 from pdr.pd_utils import (
     booleanize_booleans, compute_offsets, convert_ebcdic, convert_ibm_reals,
-    convert_vax_reals
+    convert_odd_integers, convert_vax_reals
 )
 from pdr.utils import decompress, head_file
 
@@ -154,6 +154,7 @@ def _interpret_as_binary(fn, fmtdef, dt, block, start_byte):
     table = convert_vax_reals(table, fmtdef)
     table.columns = fmtdef.NAME.tolist()
     table = convert_ebcdic(table, fmtdef)
+    table = convert_odd_integers(table, fmtdef)
     table = booleanize_booleans(table, fmtdef)
     table = bit_handling.expand_bit_strings(table, fmtdef)
     return table
diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 57a1a93..bd36425 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -14,7 +14,9 @@ import pandas as pd
 import pandas.api.types
 import vax
 
-from pdr.datatypes import sample_types
+from pdr.datatypes import (
+    determine_byte_order, is_odd_integer, sample_types
+)
 from pdr.formats import check_special_sample_type
 from pdr.np_utils import (
     enforce_order_and_object, ibm32_to_np_f32, ibm64_to_np_f64
@@ -192,8 +194,10 @@ def insert_sample_types_into_df(
             if is_special:
                 fmtdef.loc[group.index, "dt"] = special_type
             else:
-                fmtdef.loc[group.index, "dt"] = sample_types(
-                    dt, int(sample_bytes), for_numpy=True
+                fmtdef.loc[group.index, "dt"] = (
+                    f"V{int(sample_bytes)}"
+                    if is_odd_integer(dt, int(sample_bytes))
+                    else sample_types(dt, int(sample_bytes), for_numpy=True)
                 )
         except KeyError:
             raise KeyError(
@@ -281,6 +285,27 @@ def convert_ebcdic(
     return table
 
 
+def convert_odd_integers(
+    table: pd.DataFrame, fmtdef: pd.DataFrame
+) -> pd.DataFrame:
+    """
+    Convert any columns of a DataFrame that contain bytes of integers with
+    widths that have no numpy equivalent (such as 24 bits) to integers.
+    """
+    for col, data_type, dt in zip(
+        fmtdef["NAME"], fmtdef["DATA_TYPE"], fmtdef["dt"]
+    ):
+        width = dt[1:] if isinstance(dt, str) and dt[0] == "V" else ""
+        if not (width.isdigit() and is_odd_integer(data_type, int(width))):
+            continue
+        order = {"<": "little", ">": "big"}[determine_byte_order(data_type)]
+        signed = "UNSIGNED" not in data_type
+        table[col] = [
+            int.from_bytes(bytes(v), order, signed=signed) for v in table[col]
+        ]
+    return table
+
+
 def rectified_rec_df(array: np.ndarray) -> pd.DataFrame:
     """
     Attempt to 'flatten' a 1- or 2D ndarray, possibly with a structured dtype
-- 
2.43.0


From 26896ecce43383e9f49e95e778451e3920d1efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:20 +0000
Subject: [PATCH 115/121] fix: read ASCII ARRAYs that other objects follow

---
 pdr/loaders/table.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 99fc2f6..2e0fbc8 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -55,9 +55,11 @@ def read_array(fn, block, start_byte, fmtdef_dt):
     # assume objects without the optional interchange_format key are ascii
     with decompress(fn) as stream:
         stream.seek(start_byte)
-        text = stream.read().decode()
+        # other objects, perhaps not of text, may follow the array
+        text = stream.read().decode(errors="replace")
     try:
-        text = tuple(map(float, re.findall(ASCII_NUMBER, text)))
+        count = get_array_num_items(block)
+        text = tuple(map(float, re.findall(ASCII_NUMBER, text)[:count]))
     except (TypeError, IndexError, ValueError):
         text = re.split(r"\s+", text)
     array = np.asarray(text).reshape(block["AXIS_ITEMS"])
-- 
2.43.0


From 0d16174aa10de1acc515d0d2390e31294ea55b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:48 +0000
Subject: [PATCH 116/121] fix: read the file, not its directory, in zip files

---
 pdr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/utils.py b/pdr/utils.py
index 80c5690..b58e8ff 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -187,7 +187,7 @@ def decompress(filename):
     if suffix == ".zip":
         from zipfile import ZipFile
         z = ZipFile(fp)
-        return z.open(z.infolist()[0])
+        return z.open(next(i for i in z.infolist() if not i.is_dir()))
     return fp
 
 
-- 
2.43.0


From 2cc00b067dae26aaa118321d623f027904a931f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:31 +0000
Subject: [PATCH 117/121] fix: count from the end of what is in compressed
 files

---
 pdr/loaders/_helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/_helpers.py b/pdr/loaders/_helpers.py
index 7c10a37..bb24423 100644
--- a/pdr/loaders/_helpers.py
+++ b/pdr/loaders/_helpers.py
@@ -9,6 +9,8 @@ from typing import Any, Callable, Optional, Union, TYPE_CHECKING
 from cytoolz import curry
 from multidict import MultiDict
 
+from pdr.utils import decompress
+
 if TYPE_CHECKING:
     from pdr.pdrtypes import DataIdentifiers, PhysicalTarget
 
@@ -61,7 +63,9 @@ def count_from_bottom_of_file(
     tab_size = rows * row_bytes
     if isinstance(fn, list):
         fn = fn[0]
-    return os.path.getsize(Path(fn)) - tab_size
+    # (the size of a compressed file is not that of its contents)
+    with decompress(fn) as f:
+        return f.seek(0, os.SEEK_END) - tab_size
 
 
 def _check_delimiter_stream(
-- 
2.43.0


From 4791751b5924d5b32affeb7cbf40aaf130f8db2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:37 +0000
Subject: [PATCH 118/121] fix: correct the special cases of compressed files

---
 pdr/formats/cassini.py  |  5 ++---
 pdr/formats/mgs.py      |  5 ++---
 pdr/formats/mro.py      |  4 ++--
 pdr/formats/msx.py      |  5 ++---
 pdr/formats/themis.py   |  4 ++--
 pdr/formats/vex_vera.py | 17 +++++++----------
 pdr/loaders/_helpers.py |  7 ++-----
 pdr/utils.py            |  8 +++++++-
 8 files changed, 26 insertions(+), 29 deletions(-)

diff --git a/pdr/formats/cassini.py b/pdr/formats/cassini.py
index d117389..db5b059 100644
--- a/pdr/formats/cassini.py
+++ b/pdr/formats/cassini.py
@@ -3,12 +3,12 @@ from __future__ import annotations
 import warnings
 from pathlib import Path
 
-import os
 
 import pdr.loaders.queries
 from pdr.loaders.utility import tbd
 from pdr.loaders._helpers import count_from_bottom_of_file
 from pdr.loaders.queries import table_position
+from pdr.utils import contents_size
 
 
 def spreadsheet_loader(filename, fmtdef_dt, data_set_id):
@@ -123,8 +123,7 @@ def get_position(identifiers, block, target, name, filename, start_byte):
         tab_size = length
         if isinstance(filename, list):
             filename = filename[0]
-        file = Path(filename)
-        file_size = os.path.getsize(file)
+        file_size = contents_size(filename)
         length = file_size - tab_size
         start = 0
         table_props["start"] = start
diff --git a/pdr/formats/mgs.py b/pdr/formats/mgs.py
index 6ed70d1..114aa83 100644
--- a/pdr/formats/mgs.py
+++ b/pdr/formats/mgs.py
@@ -46,15 +46,14 @@ def mola_pedr_special_block(data, name, identifiers):
     * mgs_sampler
         * pedr
     """
-    import os
-    from pathlib import Path
     from pdr.loaders.queries import data_start_byte
+    from pdr.utils import contents_size
 
     block = data.metablock_(name)
     target = data.metaget_("^"+name)
     start_byte = data_start_byte(identifiers, block, target, data.filename)
 
-    table_bytes = os.path.getsize(Path(data.filename)) - start_byte
+    table_bytes = contents_size(data.filename) - start_byte
     block["ROWS"] = int(table_bytes / block["ROW_BYTES"])
 
     return block
diff --git a/pdr/formats/mro.py b/pdr/formats/mro.py
index 160fc05..ab9aeb6 100644
--- a/pdr/formats/mro.py
+++ b/pdr/formats/mro.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from io import StringIO
 
 from pdr.loaders.queries import read_table_structure
-from pdr.utils import head_file
+from pdr.utils import decompress
 
 
 def get_structure(block, name, filename, data, identifiers):
@@ -112,7 +112,7 @@ def mcs_ddr_table_loader(block, filename, start_byte):
     dtype_map = dict(zip(columns, dtypes))
     block_size = block['CONTAINER']['REPETITIONS']  # data rows per record
 
-    with open(filename, "rb") as f:
+    with decompress(filename) as f:
         f.seek(start_byte)
         data = f.read()
     # record and metadata rows are divided by new line
diff --git a/pdr/formats/msx.py b/pdr/formats/msx.py
index d53f038..4f525ed 100644
--- a/pdr/formats/msx.py
+++ b/pdr/formats/msx.py
@@ -9,10 +9,9 @@ def cube_envi_header_position(identifiers, block, target, name, start_byte, fn):
         * cubes
     """
     from pdr.loaders.queries import table_position
-    import os
-    from pathlib import Path
+    from pdr.utils import contents_size
     
     table_props = table_position(identifiers, block, target, name, start_byte)
-    table_props["length"] = os.path.getsize(Path(fn))
+    table_props["length"] = contents_size(fn)
     return table_props
 
diff --git a/pdr/formats/themis.py b/pdr/formats/themis.py
index 3e7cccf..2df701f 100644
--- a/pdr/formats/themis.py
+++ b/pdr/formats/themis.py
@@ -1,11 +1,11 @@
 from __future__ import annotations
 
-import os
 import warnings
 
 from dustgoggles.structures import listify
 
 from pdr.parselabel.pds3 import pointerize
+from pdr.utils import contents_size
 
 
 def get_visgeo_qube_offset(data):
@@ -62,7 +62,7 @@ def get_qube_offset(data):
     """
     if (
         data.metaget_("FILE_RECORDS")
-        >= os.stat(data.file_mapping["QUBE"]).st_size
+        >= contents_size(data.file_mapping["QUBE"])
     ):
         return True, data.metaget_("^QUBE")[-1] - 1
     return False, None
diff --git a/pdr/formats/vex_vera.py b/pdr/formats/vex_vera.py
index 5a93d74..00dc33c 100644
--- a/pdr/formats/vex_vera.py
+++ b/pdr/formats/vex_vera.py
@@ -48,23 +48,20 @@ def udr_table_loader(fn):
         * LV1A_CL_IFMS_D2S
         * LV1A_CL_IFMS_D2X
     """
+    from io import TextIOWrapper
     import pandas as pd
-    with open(fn, "r") as f:
-        for i, line in enumerate(f):
+    from pdr.utils import decompress
+
+    with TextIOWrapper(decompress(fn)) as f:
+        for line in f:
             line_stripped = line.strip()
             if line_stripped.startswith("//"):
                 header_line = line_stripped
-                start_line = i
                 break
         else:
             raise ValueError("Couldn't find start of level 1A VRA table.")
-    colnames = header_line[2:].strip().split()
-    table = pd.read_fwf(
-        fn,
-        skiprows=start_line + 1,
-        names=colnames,
-        comment="<"
-    )
+        colnames = header_line[2:].strip().split()
+        table = pd.read_fwf(f, names=colnames, comment="<")
     return table
 
 
diff --git a/pdr/loaders/_helpers.py b/pdr/loaders/_helpers.py
index bb24423..2f6aff0 100644
--- a/pdr/loaders/_helpers.py
+++ b/pdr/loaders/_helpers.py
@@ -1,7 +1,6 @@
 """Simple utility functions for assorted loaders and queries."""
 from __future__ import annotations
 from functools import wraps
-import os
 from pathlib import Path
 import re
 from typing import Any, Callable, Optional, Union, TYPE_CHECKING
@@ -9,7 +8,7 @@ from typing import Any, Callable, Optional, Union, TYPE_CHECKING
 from cytoolz import curry
 from multidict import MultiDict
 
-from pdr.utils import decompress
+from pdr.utils import contents_size
 
 if TYPE_CHECKING:
     from pdr.pdrtypes import DataIdentifiers, PhysicalTarget
@@ -63,9 +62,7 @@ def count_from_bottom_of_file(
     tab_size = rows * row_bytes
     if isinstance(fn, list):
         fn = fn[0]
-    # (the size of a compressed file is not that of its contents)
-    with decompress(fn) as f:
-        return f.seek(0, os.SEEK_END) - tab_size
+    return contents_size(fn) - tab_size
 
 
 def _check_delimiter_stream(
diff --git a/pdr/utils.py b/pdr/utils.py
index b58e8ff..9afa66b 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -46,7 +46,7 @@ def head_file(
     """"""
     head_buffer = BytesIO()
     if not hasattr(fn_or_reader, "read"):
-        fn_or_reader = open(fn_or_reader, "rb")
+        fn_or_reader = decompress(fn_or_reader)
     whence = 2 if tail is True else False
     offset = offset * -1 if tail is True else offset
     fn_or_reader.seek(offset, whence)
@@ -191,6 +191,12 @@ def decompress(filename):
     return fp
 
 
+def contents_size(filename: Union[Path, str]) -> int:
+    """Size, in bytes, of a file (once decompressed)."""
+    with decompress(filename) as f:
+        return f.seek(0, 2)
+
+
 def with_extension(fn: Union[str, Path], new_suffix: str) -> str:
     """"""
     return str(Path(fn).with_suffix(new_suffix))
-- 
2.43.0


From 2a5fa383c4493f936ea4e0c0ab9c0d567e7e2229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:22 +0000
Subject: [PATCH 119/121] fix: read FITS tables that mix variable-length and
 fixed columns

A lone non-native column next to columns of objects cannot be viewed as
native ('Cannot change data-type for array of references').
---
 pdr/np_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index 88ac33a..d0a61bc 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -38,7 +38,7 @@ def enforce_order_and_object(array: np.ndarray, inplace=True) -> np.ndarray:
             return void_return.astype("O")
         if dtype.isnative:
             return array
-        return array.byteswap().view(array.dtype.newbyteorder("="))
+        return array.astype(array.dtype.newbyteorder("="))
     swap_targets = []
     swapped_dtype = []
     for name, field in array.dtype.fields.items():
-- 
2.43.0


From 2fd3f09755f8f8591419bd7476ab18c62610def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:21 +0000
Subject: [PATCH 120/121] fix: count FITS keywords which occur more than once
 in one header

---
 pdr/loaders/handlers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index c251e19..bd07476 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -335,6 +335,7 @@ def unpack_fits_headers(
         # note that FITS headers aren't nested, so we only have to iterate
         # over one level. How refreshing!
         params.append(hdu_name)
-        for field in headerdict[hdu_name].keys():
+        # a keyword (like HISTORY) may occur more than once in a header
+        for field, _ in headerdict[hdu_name].items():
             params.append(field)
     return headerdict, params, hdumap
-- 
2.43.0


From bcbb80a5b57a0477794ee667bc7824d674bc5a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:39 +0000
Subject: [PATCH 121/121] fix: locate objects in FITS files with unprintable
 header cards

---
 pdr/formats/epoxi.py      |  4 ++--
 pdr/formats/galileo.py    |  2 +-
 pdr/formats/ground.py     |  2 +-
 pdr/formats/lro.py        | 10 +++++-----
 pdr/formats/mex.py        |  2 +-
 pdr/formats/saturn_rpx.py |  2 +-
 6 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pdr/formats/epoxi.py b/pdr/formats/epoxi.py
index a306761..a844363 100644
--- a/pdr/formats/epoxi.py
+++ b/pdr/formats/epoxi.py
@@ -29,5 +29,5 @@ def hriv_deconv_mask_start_byte(name, hdulist):
         * hriv_deconvolved
     """
     if 'HEADER' in name:
-        return hdulist.fileinfo('MASK')['hdrLoc']
-    return hdulist.fileinfo('MASK')['datLoc']
+        return hdulist['MASK'].fileinfo()['hdrLoc']
+    return hdulist['MASK'].fileinfo()['datLoc']
diff --git a/pdr/formats/galileo.py b/pdr/formats/galileo.py
index 833c379..8ad0a3c 100644
--- a/pdr/formats/galileo.py
+++ b/pdr/formats/galileo.py
@@ -22,7 +22,7 @@ def mdis_fits_start_byte(name: str, hdulist: HDUList) -> int:
         raise NotImplementedError("Unknown MDIS extension name")
     if name == "HEADER":
         return 0
-    return hdulist.fileinfo(0)['datLoc']
+    return hdulist[0].fileinfo()['datLoc']
 
 
 def galileo_table_loader():
diff --git a/pdr/formats/ground.py b/pdr/formats/ground.py
index 0d33d28..975a4d3 100644
--- a/pdr/formats/ground.py
+++ b/pdr/formats/ground.py
@@ -12,7 +12,7 @@ def mssso_cal_start_byte(name, hdulist):
     """
     if 'HEADER' in name:
         return 0
-    return hdulist.fileinfo(0)['datLoc']
+    return hdulist[0].fileinfo()['datLoc']
 
 
 def wff_atm_special_block(data, name):
diff --git a/pdr/formats/lro.py b/pdr/formats/lro.py
index dace3c3..81777d5 100644
--- a/pdr/formats/lro.py
+++ b/pdr/formats/lro.py
@@ -157,7 +157,7 @@ def lamp_edr_hdu_exceptions(name, hdulist):
         # product with a [*]_TABLE pointer missed above
         return False, None
     
-    if hdulist.fileinfo(extname)['datSpan'] == 0:
+    if hdulist[extname].fileinfo()['datSpan'] == 0:
         raise DoesNotExistError(
             f"The {name}'s length is zero; the table does not actually exist."
         )
@@ -186,7 +186,7 @@ def lamp_rdr_hdu_start_byte(name, hdulist):
         extname = "Calculated Countrate"
         try:
             # Check to see if this is the correct 'EXTNAM' in the fits HDU
-            hdulist.fileinfo(extname)
+            hdulist[extname].fileinfo()
         except:
             # Sometimes this pointer refers to a different HDU extension name
             extname = "Reduced Count Rate"
@@ -201,10 +201,10 @@ def lamp_rdr_hdu_start_byte(name, hdulist):
         return False, None
 
     if 'HEADER' in name:
-        return True, hdulist.fileinfo(extname)['hdrLoc']
-    if hdulist.fileinfo(extname)['datSpan'] == 0:
+        return True, hdulist[extname].fileinfo()['hdrLoc']
+    if hdulist[extname].fileinfo()['datSpan'] == 0:
         raise DoesNotExistError(
             f"The {name}'s length is zero; the data object does not actually exist."
         )
-    return True, hdulist.fileinfo(extname)['datLoc']
+    return True, hdulist[extname].fileinfo()['datLoc']
 
diff --git a/pdr/formats/mex.py b/pdr/formats/mex.py
index 2356d25..9e781da 100644
--- a/pdr/formats/mex.py
+++ b/pdr/formats/mex.py
@@ -173,4 +173,4 @@ def vmc_rdr_hdu_selection(name, hdulist):
         * rdr
     """
 
-    return hdulist.fileinfo(1)['datLoc']
+    return hdulist[1].fileinfo()['datLoc']
diff --git a/pdr/formats/saturn_rpx.py b/pdr/formats/saturn_rpx.py
index 8589d99..1394171 100644
--- a/pdr/formats/saturn_rpx.py
+++ b/pdr/formats/saturn_rpx.py
@@ -17,4 +17,4 @@ def rpx_img_hdu_start_byte(name, hdulist):
     """
     if 'HEADER' in name:
         return 0
-    return hdulist.fileinfo(0)['datLoc']
+    return hdulist[0].fileinfo()['datLoc']
-- 
2.43.0

