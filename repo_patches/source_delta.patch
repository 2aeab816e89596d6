From 04328a5cf3f17b771b2a77119a741871b76eee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 01/28] fix: consolidate() keeps higher-order SH coefficients
 in channel-grouped order

---
 src/gsply/gsdata.py         | 4 ++--
 src/gsply/torch/gstensor.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index a085d3d..70b60af 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -861,9 +861,9 @@ class GSData:
             sh_coeffs = sh_bands * 3  # Total coefficients (9, 24, or 45)
             n_props = 14 + sh_coeffs
 
-            # Flatten shN from (N, bands, 3) to (N, bands*3)
+            # Flatten shN from (N, bands, 3) to channel-grouped (N, 3*bands), as in PLY files
             shn_flat = np.ascontiguousarray(
-                self.shN.reshape(n_gaussians, sh_coeffs), dtype=np.float32
+                self.shN.transpose(0, 2, 1).reshape(n_gaussians, sh_coeffs), dtype=np.float32
             )
 
             # Allocate and populate using JIT kernel
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 94cb4c3..be51722 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -885,7 +885,8 @@ class GSTensor:
         # Handle shN if present
         if self.shN is not None and self.shN.shape[1] > 0:
             sh_coeffs = self.shN.shape[1]
-            shN_flat = self.shN.reshape(n_gaussians, sh_coeffs * 3)
+            # Channel-grouped layout, as in PLY files and _recreate_from_base
+            shN_flat = self.shN.transpose(1, 2).reshape(n_gaussians, sh_coeffs * 3)
             new_base[:, 6 : 6 + sh_coeffs * 3] = shN_flat
             opacity_idx = 6 + sh_coeffs * 3
         else:
-- 
2.43.0


From 79b506b3bb422c3a814e96146440521472cf34da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 02/28] fix: header parsing terminates on files without
 end_header

---
 src/gsply/formats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gsply/formats.py b/src/gsply/formats.py
index 3f987b0..de0e647 100644
--- a/src/gsply/formats.py
+++ b/src/gsply/formats.py
@@ -180,6 +180,8 @@ def _parse_ply_header(file_path: Path) -> tuple[dict[str, dict[str, Any]], int]:
 
         while True:
             line = f.readline()
+            if not line:
+                raise ValueError("PLY header is truncated (no end_header)")
             header_size += len(line)
             line_str = line.decode("ascii").strip()
 
-- 
2.43.0


From c95823c7b45948334cf56b2750460393d91d6c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 03/28] fix: compressed readers reject headers whose layout or
 chunk count does not match the data they decode

---
 src/gsply/formats.py | 18 ++++++++++++++++--
 src/gsply/reader.py  | 32 +++++++++-----------------------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/gsply/formats.py b/src/gsply/formats.py
index de0e647..5f55d04 100644
--- a/src/gsply/formats.py
+++ b/src/gsply/formats.py
@@ -316,7 +316,7 @@ def _is_compressed_format(elements: dict[str, dict[str, Any]]) -> bool:
 
     # Check vertex element (4 uint properties)
     vertex_props = vertex_elem["properties"]
-    if len(vertex_props) < COMPRESSED_VERTEX_PROPERTIES:
+    if len(vertex_props) != COMPRESSED_VERTEX_PROPERTIES:
         return False
 
     # Verify vertex property types and names match expected format
@@ -332,8 +332,22 @@ def _is_compressed_format(elements: dict[str, dict[str, Any]]) -> bool:
     num_chunks = chunk_elem["count"]
     num_vertices = vertex_elem["count"]
     expected_chunks = (num_vertices + CHUNK_SIZE - 1) // CHUNK_SIZE
+    if num_vertices < 0 or num_chunks != expected_chunks:
+        return False
 
-    return num_chunks == expected_chunks
+    # Data follows the header in element order: chunk, vertex and (optionally) sh
+    if list(elements)[:2] != ["chunk", "vertex"]:
+        return False
+    if "sh" not in elements:
+        return True
+    sh_elem = elements["sh"]
+    sh_names = [f"f_rest_{i}" for i in range(len(sh_elem["properties"]))]
+    return (
+        list(elements)[2] == "sh"
+        and sh_elem["count"] == num_vertices
+        and len(sh_names) % 3 == 0
+        and sh_elem["properties"] == [("uchar", name) for name in sh_names]
+    )
 
 
 def get_sh_degree_from_property_count(property_count: int) -> int | None:
diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index 97e5422..f7a7d0e 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -53,6 +53,7 @@ from gsply.formats import (
     detect_format,
     get_sh_degree_from_property_count,
 )
+from gsply.formats import _is_compressed_format as _is_compressed_layout
 
 # Import GSData from separate module
 from gsply.gsdata import DataFormat, GSData, _create_format_dict, _get_sh_order_format
@@ -572,34 +573,19 @@ def _parse_elements_from_header(header_lines: list[str]) -> dict:
     return elements
 
 
+def _is_binary_little_endian(header_lines: list) -> bool:
+    """Check magic line and encoding of a PLY header."""
+    formats = [line.split()[1:2] for line in header_lines if line.startswith("format ")]
+    return header_lines[:1] == ["ply"] and formats == [["binary_little_endian"]]
+
+
 def _is_compressed_format(header_lines: list) -> bool:
     """Check if PLY header indicates compressed format."""
     # Reuse element parsing logic
     elements = _parse_elements_from_header(header_lines)
 
-    # Compressed format has "chunk" and "vertex" elements with specific properties
-    if "chunk" not in elements or "vertex" not in elements:
-        return False
-
-    chunk_props = elements["chunk"]["properties"]
-    if len(chunk_props) != 18:
-        return False
-
-    vertex_props = elements["vertex"]["properties"]
-    if len(vertex_props) != 4:
-        return False
-
-    expected_vertex = [
-        "packed_position",
-        "packed_rotation",
-        "packed_scale",
-        "packed_color",
-    ]
-    for (_, prop_name), expected_name in zip(vertex_props, expected_vertex, strict=False):
-        if prop_name != expected_name:
-            return False
-
-    return True
+    # The layout (elements, properties, counts) must be exactly the one decoded below
+    return _is_binary_little_endian(header_lines) and _is_compressed_layout(elements)
 
 
 def _decompress_data_internal(
-- 
2.43.0


From 2886c23b9972e79511018a3447d8135693bd3027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 04/28] fix: uncompressed reader and detection take every
 vertex property and preceding element into account

---
 src/gsply/formats.py |  5 ++---
 src/gsply/reader.py  | 24 +++++++++---------------
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/gsply/formats.py b/src/gsply/formats.py
index 5f55d04..45ed0b8 100644
--- a/src/gsply/formats.py
+++ b/src/gsply/formats.py
@@ -245,10 +245,9 @@ def detect_format(file_path: str | Path) -> tuple[bool, int | None]:
     # Try to match against known SH degrees
     for sh_degree, expected_count in PROPERTY_COUNTS_BY_SH_DEGREE.items():
         if property_count == expected_count:
-            # Verify property names match
-            prop_names = [prop[1] for prop in vertex_props]
+            # Verify property types and names match
             expected_names = EXPECTED_PROPERTIES_BY_SH_DEGREE[sh_degree]
-            if prop_names == expected_names:
+            if vertex_props == [("float", name) for name in expected_names]:
                 return False, sh_degree
 
     # Unknown format
diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index f7a7d0e..cbb6961 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -449,23 +449,17 @@ def read_uncompressed(file_path: str | Path) -> GSData | None:  # noqa: PLR0911
                 return None
             header_lines, data_offset = header_result
 
-            # Parse header
-            vertex_count = None
-            is_binary_le = False
-            property_names = []
-
-            for line in header_lines:
-                if line.startswith("format "):
-                    format_type = line.split()[1]
-                    is_binary_le = format_type == "binary_little_endian"
-                elif line.startswith("element vertex "):
-                    vertex_count = int(line.split()[2])
-                elif line.startswith("property float "):
-                    prop_name = line.split()[2]
-                    property_names.append(prop_name)
+            # Parse header: vertex data must directly follow it
+            elements = _parse_elements_from_header(header_lines)
+            if not _is_binary_little_endian(header_lines) or next(iter(elements), None) != "vertex":
+                return None
+
+            vertex_count = elements["vertex"]["count"]
+            vertex_properties = elements["vertex"]["properties"]
+            property_names = [name for _, name in vertex_properties]
 
             # Validate format
-            if not is_binary_le or vertex_count is None:
+            if vertex_count < 0 or any(prop_type != "float" for prop_type, _ in vertex_properties):
                 return None
 
             # Detect SH degree from property count
-- 
2.43.0


From d7dbcf525a0a63b1c292c372749070f56f211431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 05/28] fix: reject PLY headers that declare an element twice

---
 src/gsply/formats.py | 2 ++
 src/gsply/reader.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/gsply/formats.py b/src/gsply/formats.py
index 45ed0b8..ec65799 100644
--- a/src/gsply/formats.py
+++ b/src/gsply/formats.py
@@ -195,6 +195,8 @@ def _parse_ply_header(file_path: Path) -> tuple[dict[str, dict[str, Any]], int]:
             if parts[0] == "element":
                 element_name = parts[1]
                 element_count = int(parts[2])
+                if element_name in elements:
+                    raise ValueError(f"Duplicate element in PLY header: {element_name}")
                 elements[element_name] = {"count": element_count, "properties": []}
                 current_element = element_name
 
diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index cbb6961..66950ae 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -556,6 +556,8 @@ def _parse_elements_from_header(header_lines: list[str]) -> dict:
             parts = line.split()
             name = parts[1]
             count = int(parts[2])
+            if name in elements:
+                raise ValueError(f"Duplicate element in PLY header: {name}")
             elements[name] = {"count": count, "properties": []}
             current_element = name
         elif line.startswith("property ") and current_element:
-- 
2.43.0


From 154122ba92355f51d90e4db3d45baec234f93921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:02 +0000
Subject: [PATCH 06/28] fix: only a line consisting of end_header ends a PLY
 header

---
 src/gsply/reader.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index 66950ae..2c8ca28 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -161,8 +161,8 @@ def _read_header_fast(f) -> tuple[list[str], int] | None:
         # Read first chunk (typical header is 300-2000 bytes)
         chunk = f.read(_HEADER_READ_CHUNK_SIZE)
 
-        # Find end_header marker
-        end_marker = b"end_header\n"
+        # Find end_header marker (a line of its own)
+        end_marker = b"\nend_header\n"
         end_idx = chunk.find(end_marker)
 
         if end_idx == -1:
@@ -570,9 +570,13 @@ def _parse_elements_from_header(header_lines: list[str]) -> dict:
 
 
 def _is_binary_little_endian(header_lines: list) -> bool:
-    """Check magic line and encoding of a PLY header."""
+    """Check magic line, encoding and end of a PLY header."""
     formats = [line.split()[1:2] for line in header_lines if line.startswith("format ")]
-    return header_lines[:1] == ["ply"] and formats == [["binary_little_endian"]]
+    return (
+        header_lines[:1] == ["ply"]
+        and formats == [["binary_little_endian"]]
+        and "end_header" not in header_lines[:-1]
+    )
 
 
 def _is_compressed_format(header_lines: list) -> bool:
@@ -726,7 +730,7 @@ def _parse_header_from_bytes(compressed_bytes: bytes) -> tuple[list[str], int, d
     :raises ValueError: If header is invalid or not compressed format
     """
     # Fast path: Find end_header with byte search (like _read_header_fast)
-    end_marker = b"end_header\n"
+    end_marker = b"\nend_header\n"
     end_idx = compressed_bytes.find(end_marker)
 
     if end_idx == -1:
-- 
2.43.0


From 455e585fe2c6c0aa304abf56bab9764eee460967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 07/28] fix: replacing an attribute no longer leaves a stale
 _base behind

Slices, copies, concatenation, consolidation, tensor transfer and file writes
read _base when it is present, so they used the values from before the
replacement (apply_masks(inplace=True) and apply_pre_deactivations included).
---
 src/gsply/gsdata.py         | 17 +++++++++++++++--
 src/gsply/torch/gstensor.py | 14 ++++++++++++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 70b60af..078f8eb 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -390,6 +390,10 @@ def _combine_masks_numba_or(masks):
     return result
 
 
+# Attributes that are views into _base when a container has one
+_BASE_FIELDS = frozenset(("means", "scales", "quats", "opacities", "sh0", "shN"))
+
+
 @dataclass
 class GSData:
     """Gaussian Splatting data container.
@@ -474,6 +478,17 @@ class GSData:
                 quats=DataFormat.QUATS_RAW,
             )
 
+    def __setattr__(self, name, value):
+        """Detach from _base when an attribute it backs is replaced.
+
+        _base only stands for the attributes while they are views into it. In-place
+        operators (``data.means += 1``) rebind the same object and keep it.
+        """
+        if name in _BASE_FIELDS and value is not self.__dict__.get(name):
+            if self.__dict__.get("_base") is not None:
+                object.__setattr__(self, "_base", None)
+        object.__setattr__(self, name, value)
+
     def __len__(self) -> int:
         """Return the number of Gaussians."""
         return self.means.shape[0]
@@ -817,8 +832,6 @@ class GSData:
                     self.masks = self.masks[combined_mask]
                 else:
                     self.masks = self.masks[combined_mask, :]
-            if self._base is not None:
-                self._base = self._base[combined_mask]
             return self
         # Return filtered copy
         return self[combined_mask]
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index be51722..44c9e63 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -13,6 +13,7 @@ from gsply.formats import SH_BANDS_TO_DEGREE, SH_C0
 # Import DataFormat, FormatDict, GSData, and helpers from gsdata
 # No circular dependency - gsdata.py doesn't import GSTensor
 from gsply.gsdata import (
+    _BASE_FIELDS,
     DataFormat,
     FormatDict,
     GSData,
@@ -103,6 +104,17 @@ class GSTensor:
                 quats=DataFormat.QUATS_RAW,
             )
 
+    def __setattr__(self, name, value):
+        """Detach from _base when an attribute it backs is replaced.
+
+        _base only stands for the attributes while they are views into it. In-place
+        operators (``data.means += 1``) rebind the same object and keep it.
+        """
+        if name in _BASE_FIELDS and value is not self.__dict__.get(name):
+            if self.__dict__.get("_base") is not None:
+                object.__setattr__(self, "_base", None)
+        object.__setattr__(self, name, value)
+
     def __len__(self) -> int:
         """Return the number of Gaussians."""
         return self.means.shape[0]
@@ -1926,8 +1938,6 @@ class GSTensor:
                     self.masks = self.masks[combined_mask]
                 else:
                     self.masks = self.masks[combined_mask, :]
-            if self._base is not None:
-                self._base = self._base[combined_mask]
             return self
         # Return filtered copy (leverages existing __getitem__ with _base optimization)
         return self[combined_mask]
-- 
2.43.0


From 8187bb15fd063061fccaab876a1809cca4cd0b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 08/28] fix: containers no longer share their mask_names list

---
 src/gsply/gsdata.py         | 4 ++++
 src/gsply/torch/gstensor.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 078f8eb..fb191a8 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -464,6 +464,10 @@ class GSData:
         # Copy format dict to avoid sharing mutable state between instances
         self._format = dict(self._format)
 
+        # Same for the layer names
+        if self.mask_names is not None:
+            self.mask_names = list(self.mask_names)
+
         # If _format is empty dict, auto-detect from values
         if not self._format:
             scales_format, opacities_format = _detect_format_from_values(
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 44c9e63..7dd2a5b 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -89,6 +89,10 @@ class GSTensor:
         # Copy format dict to avoid sharing mutable state between instances
         self._format = dict(self._format)
 
+        # Same for the layer names
+        if self.mask_names is not None:
+            self.mask_names = list(self.mask_names)
+
         # If _format is empty dict, auto-detect from values
         if not self._format:
             # Convert tensors to numpy for format detection
-- 
2.43.0


From 9b6e67fde174f9567b2019050afab754c01f80a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 09/28] fix: make_contiguous() also makes non-contiguous masks
 contiguous

---
 src/gsply/gsdata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index fb191a8..96bc974 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -1326,7 +1326,10 @@ class GSData:
                 for arr in [self.means, self.scales, self.quats, self.opacities, self.sh0]
                 if arr is not None
             )
-            if all_contiguous and (self.shN is None or self.shN.flags["C_CONTIGUOUS"]):
+            all_contiguous = all_contiguous and all(
+                arr is None or arr.flags["C_CONTIGUOUS"] for arr in (self.shN, self.masks)
+            )
+            if all_contiguous:
                 return self  # Already contiguous, nothing to do
 
         # Convert to contiguous arrays
-- 
2.43.0


From 4d0e7afc32e78523996feb0c4828dd883dd1ad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 10/28] fix: plywrite() converts linear data on a copy instead
 of rewriting the caller's arrays

---
 src/gsply/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 92aedc8..382aaee 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1582,14 +1582,14 @@ def plywrite(
                 file_path = Path(str(file_path) + ".compressed.ply")
 
         # Ensure data is in PLY format (log-scales, logit-opacities) before writing
-        data = _ensure_ply_format(data, inplace=True)
+        data = _ensure_ply_format(data, inplace=False)
 
         # Extract arrays for compressed write (compressed write doesn't use GSData yet)
         means, scales, quats, opacities, sh0, shN = data.unpack()  # noqa: N806
         write_compressed(file_path, means, scales, quats, opacities, sh0, shN)
     else:
         # Ensure data is in PLY format (log-scales, logit-opacities) before writing
-        data = _ensure_ply_format(data, inplace=True)
+        data = _ensure_ply_format(data, inplace=False)
         write_uncompressed(file_path, data, validate=validate)
 
 
-- 
2.43.0


From 08ea320bab14838c6aad6cf5182b90a7c8d87f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 11/28] fix: writing data with only one of scales/opacities
 linear no longer converts the other twice

---
 src/gsply/torch/io.py | 8 +++++++-
 src/gsply/writer.py   | 9 ++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/io.py b/src/gsply/torch/io.py
index 293174d..0728339 100644
--- a/src/gsply/torch/io.py
+++ b/src/gsply/torch/io.py
@@ -101,7 +101,13 @@ def plywrite_gpu(
         logger.debug(
             f"[GPU Write] Converting from {scales_format}/{opacities_format} to PLY format before writing"
         )
-        gstensor = gstensor.normalize(inplace=False)  # Create copy with PLY format
+        converted = gstensor.normalize(inplace=False)  # Create copy with PLY format
+        # normalize() converts both attributes; keep the one already in PLY format
+        if scales_format == DataFormat.SCALES_PLY:
+            converted.scales = gstensor.scales
+        if opacities_format == DataFormat.OPACITIES_PLY:
+            converted.opacities = gstensor.opacities
+        gstensor = converted
 
     file_path = Path(file_path)
     write_compressed_gpu(file_path, gstensor)
diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 382aaee..f6ecec7 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -880,7 +880,14 @@ def _ensure_ply_format(data: GSData, inplace: bool = True) -> GSData:
         logger.debug(
             f"[PLY Write] Converting from {scales_format}/{opacities_format} to PLY format before writing"
         )
-        return data.normalize(inplace=inplace)
+        # normalize() converts both attributes; keep the one already in PLY format
+        scales = data.scales.copy() if scales_format == DataFormat.SCALES_PLY else None
+        opacities = data.opacities.copy() if opacities_format == DataFormat.OPACITIES_PLY else None
+        data = data.normalize(inplace=inplace)
+        if scales is not None:
+            data.scales = scales
+        if opacities is not None:
+            data.opacities = opacities
     return data
 
 
-- 
2.43.0


From 259903fdda00fca218e7338b8ac1dc60697a8d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:53 +0000
Subject: [PATCH 12/28] fix: GSTensor.save()/save_compressed() convert linear
 data to PLY format like every other writer

---
 src/gsply/torch/gstensor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 7dd2a5b..244322c 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -25,7 +25,7 @@ from gsply.gsdata import (
 )
 
 # Import compression functions (no circular dependency - compression.py only imports GSTensor for type hints)
-from gsply.torch.compression import read_compressed_gpu, write_compressed_gpu
+from gsply.torch.compression import read_compressed_gpu
 
 # Lazy imports to avoid circular dependencies with writer.py and reader.py
 # (writer.py and reader.py import GSData at module level, creating circular imports)
@@ -1484,7 +1484,10 @@ class GSTensor:
         file_path = Path(file_path)
 
         if compressed:
-            write_compressed_gpu(file_path, self)
+            # Converts linear data to PLY format before writing
+            from gsply.torch.io import plywrite_gpu
+
+            plywrite_gpu(file_path, self)
         else:
             # Convert to GSData and save uncompressed
             from gsply.writer import plywrite
-- 
2.43.0


From f2cad392ee14c8744735ec55963051c0fe708877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:35 +0000
Subject: [PATCH 13/28] fix: GSTensor shN is a view into _base like the other
 attributes

It was a copy, so in-place edits of shN were lost by slicing, cloning,
concatenating, moving and saving, which all read _base.
---
 src/gsply/torch/gstensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 244322c..c3d2d26 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -963,8 +963,8 @@ class GSTensor:
             shN_flat = base_tensor[:, 6 : 6 + sh_coeffs * 3]
             # PLY stores SH coefficients channel-grouped: [R0..Rk, G0..Gk, B0..Bk]
             # Reshape to [N, 3, K] then transpose to [N, K, 3] for gsplat convention
-            # contiguous() is required for correct memory layout after transpose
-            shN = shN_flat.reshape(n_gaussians, 3, sh_coeffs).transpose(1, 2).contiguous()
+            # (a view like the other attributes, so in-place edits reach the base)
+            shN = shN_flat.reshape(n_gaussians, 3, sh_coeffs).transpose(1, 2)
             opacity_idx = 6 + sh_coeffs * 3
         else:
             shN = None
-- 
2.43.0


From 4cf356e9442f74ae519527b43ef0a3f170aae7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:48 +0000
Subject: [PATCH 14/28] fix: zero-copy write only for float32 backing arrays

A float64 or float16 _base (from a converted tensor) was written as is, under a
header declaring floats.
---
 src/gsply/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index f6ecec7..a2a462a 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1150,7 +1150,7 @@ def write_uncompressed(
     file_path = Path(file_path)
 
     # ZERO-COPY FAST PATH: Write _base array directly if it exists
-    if data._base is not None:
+    if data._base is not None and data._base.dtype == np.float32:
         num_gaussians = len(data)
         # shN.shape = (N, K, 3) where K is number of bands
         # Header needs total coefficients = K * 3
-- 
2.43.0


From 8b26d97270184c8b3bd5d179f70d94038f1629e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:48 +0000
Subject: [PATCH 15/28] fix: saving zero Gaussians keeps the SH degree in the
 header

---
 src/gsply/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index a2a462a..7b2022e 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1155,7 +1155,7 @@ def write_uncompressed(
         # shN.shape = (N, K, 3) where K is number of bands
         # Header needs total coefficients = K * 3
         num_sh_rest = (
-            data.shN.shape[1] * 3 if (data.shN is not None and data.shN.size > 0) else None
+            data.shN.shape[1] * 3 if (data.shN is not None and data.shN.shape[1] > 0) else None
         )
         header_bytes = _build_header_fast(num_gaussians, num_sh_rest)
 
-- 
2.43.0


From a15de0c2d19b9625e628f58ba28ba1a68d8a96d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 16/28] fix: shape validation before writing covers shN

---
 src/gsply/writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 7b2022e..796a2ac 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -934,6 +934,10 @@ def _validate_and_normalize_inputs(
     # Step 3: Validate shapes if requested
     if validate:
         _validate_array_shapes(means, scales, quats, opacities, sh0, num_gaussians)
+        assert shn is None or shn.shape[0] == num_gaussians, (
+            f"shN array has incorrect shape: expected {num_gaussians} rows, got {shn.shape}. "
+            f"Ensure all arrays have the same number of Gaussians (N)."
+        )
 
     # Step 4: Flatten shN if needed (from (N, K, 3) to (N, K*3))
     shn = _flatten_shn(shn, validate)
-- 
2.43.0


From 16424ef41eb280bb3397cfc310e4a65f83e32303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:05 +0000
Subject: [PATCH 17/28] fix: boolean lists (and NumPy masks on GSTensor) select
 like masks, not as indices 0 and 1

---
 src/gsply/gsdata.py         | 4 ++++
 src/gsply/torch/gstensor.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 96bc974..bae9bae 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -1903,6 +1903,10 @@ class GSData:
                 _format=self._format,  # Preserve format flag
             )
 
+        # A list of bools is a mask, not the indices 0 and 1
+        if isinstance(key, list) and np.asarray(key).dtype == bool:
+            key = np.asarray(key)
+
         # Handle boolean array masking
         if isinstance(key, np.ndarray) and key.dtype == bool:
             if len(key) != len(self):
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index c3d2d26..9840e5e 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1079,6 +1079,10 @@ class GSTensor:
                 _format=self._format,  # Preserve format flag
             )
 
+        # Boolean arrays and lists are masks, not the indices 0 and 1
+        if isinstance(key, (list, np.ndarray)) and np.asarray(key).dtype == bool:
+            key = torch.as_tensor(key, dtype=torch.bool, device=self.device)
+
         # Handle boolean tensor masking
         if isinstance(key, torch.Tensor) and key.dtype == torch.bool:
             if len(key) != len(self):
-- 
2.43.0


From 97e946d67aa4b2110ef6ed3e18f503dc20d75f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 18/28] fix: tensor encoder accepts zero Gaussians

---
 src/gsply/torch/compression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 64d3f71..1fb0b55 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -447,7 +447,7 @@ def _compute_chunk_bounds_gpu(
         data_padded = data
 
     # Reshape to (NumChunks, 256, D)
-    data_reshaped = data_padded.reshape(num_chunks, CHUNK_SIZE, -1)
+    data_reshaped = data_padded.reshape(num_chunks, CHUNK_SIZE, data.shape[1])
 
     # Create mask to exclude padded values in last chunk
     # For last chunk, mask out positions >= num_gaussians
@@ -627,7 +627,7 @@ def _pack_sh_gpu(shN: torch.Tensor) -> torch.Tensor:  # noqa: N803
     """
     # Transpose [N, K, 3] -> [N, 3, K] then flatten to [N, 3*K]
     # This gives channel-grouped order matching original 3DGS PLY format
-    sh_flat = shN.transpose(1, 2).reshape(shN.shape[0], -1)
+    sh_flat = shN.transpose(1, 2).reshape(shN.shape[0], shN.shape[1] * 3)
 
     # Quantize: shN * 32 + 128, clamped to [0, 255]
     return torch.clamp(sh_flat * 32.0 + 128.0, 0.0, 255.0).to(torch.uint8)
-- 
2.43.0


From c4bae543e06c2b1fc15427897099f5bc5703d53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 19/28] fix: SOG tables too short for their indices are
 rejected

The kernels read past the end of short codebooks and min/max lists.
---
 src/gsply/sog_reader.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/gsply/sog_reader.py b/src/gsply/sog_reader.py
index 19c9e9b..d298933 100644
--- a/src/gsply/sog_reader.py
+++ b/src/gsply/sog_reader.py
@@ -409,6 +409,31 @@ def _load_webp_image(data: bytes) -> tuple[np.ndarray, int, int]:
     return rgba_flat, width, height
 
 
+def _check_codebook(rgba: np.ndarray, codebook: np.ndarray, count: int, name: str) -> None:
+    """Reject codebooks too short for the indices their texture holds.
+
+    :param rgba: (W*H*4,) uint8 RGBA data
+    :param codebook: Codebook the RGB channels index into
+    :param count: Number of Gaussians
+    :param name: Entry name for the error message
+    """
+    indices = rgba[: count * 4].reshape(count, 4)[:, :3]
+    if np.any(indices >= len(codebook)):
+        raise ValueError(f"SOG {name} codebook too short for its indices")
+
+
+def _check_bounds(mins: np.ndarray, maxs: np.ndarray, channels: int, name: str) -> None:
+    """Reject min/max tables with fewer entries than decoded channels.
+
+    :param mins: Minimum values
+    :param maxs: Maximum values
+    :param channels: Number of channels that are dequantized
+    :param name: Entry name for the error message
+    """
+    if len(mins) < channels or len(maxs) < channels:
+        raise ValueError(f"SOG {name} mins/maxs need {channels} entries")
+
+
 def sogread(file_path: str | Path | bytes) -> GSData:
     """Read SOG (Splat Ordering Grid) format file.
 
@@ -519,10 +544,12 @@ def sogread(file_path: str | Path | bytes) -> GSData:
         # v3: linear min/max dequantization
         sc_mins = np.array(meta["scales"]["mins"], dtype=np.float32)
         sc_maxs = np.array(meta["scales"]["maxs"], dtype=np.float32)
+        _check_bounds(sc_mins, sc_maxs, 3, "scales")
         sx, sy, sz = _decode_scales_linear_jit(scales_rgba, sc_mins, sc_maxs, count)
     else:
         # v2: codebook lookup
         scales_codebook = np.array(meta["scales"]["codebook"], dtype=np.float32)
+        _check_codebook(scales_rgba, scales_codebook, count, "scales")
         sx, sy, sz = _decode_scales_jit(scales_rgba, scales_codebook, count)
     scales[:, 0] = sx
     scales[:, 1] = sy
@@ -538,12 +565,14 @@ def sogread(file_path: str | Path | bytes) -> GSData:
         # v3: linear min/max dequantization (4 channels: RGB + opacity in logit space)
         sh0_mins = np.array(meta["sh0"]["mins"], dtype=np.float32)
         sh0_maxs = np.array(meta["sh0"]["maxs"], dtype=np.float32)
+        _check_bounds(sh0_mins, sh0_maxs, 4, "sh0")
         sh0_r, sh0_g, sh0_b, opacities = _decode_colors_linear_jit(
             sh0_rgba, sh0_mins, sh0_maxs, count
         )
     else:
         # v2: codebook lookup + logit transform on alpha channel
         sh0_codebook = np.array(meta["sh0"]["codebook"], dtype=np.float32)
+        _check_codebook(sh0_rgba, sh0_codebook, count, "sh0")
         sh0_r, sh0_g, sh0_b, opacities = _decode_colors_jit(sh0_rgba, sh0_codebook, count)
 
     sh0 = np.empty((count, 3), dtype=np.float32)
-- 
2.43.0


From 5ffff1b5d1e0565dcb91f15750713b152713dcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:42 +0000
Subject: [PATCH 20/28] fix: SOG centroid textures that do not match the SH
 bands or palette are rejected

---
 src/gsply/sog_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gsply/sog_reader.py b/src/gsply/sog_reader.py
index d298933..1104eeb 100644
--- a/src/gsply/sog_reader.py
+++ b/src/gsply/sog_reader.py
@@ -607,6 +607,10 @@ def sogread(file_path: str | Path | bytes) -> GSData:
                 raise ValueError("SOG shN labels texture too small for count")
 
             centroids_width = 64 * sh_coeffs
+            if cw != centroids_width:
+                raise ValueError("SOG shN centroids texture width does not match its SH bands")
+            if not is_v3 and ch * 64 < shn_meta["count"]:
+                raise ValueError("SOG shN centroids texture too small for its palette")
 
             if is_v3:
                 # v3: linear dequantization with scalar min/max
-- 
2.43.0


From 16905ae4585aeb674a6a59041f4293ffef3a53fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:31 +0000
Subject: [PATCH 21/28] fix: a new mask layer may not take the default name of
 an unnamed layer

---
 src/gsply/gsdata.py         | 8 ++++++--
 src/gsply/torch/gstensor.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index bae9bae..cfa2589 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -675,8 +675,12 @@ class GSData:
         if mask.shape != (len(self),):
             raise ValueError(f"Mask shape {mask.shape} doesn't match data length ({len(self)},)")
 
-        # Check for duplicate names
-        if self.mask_names is not None and name in self.mask_names:
+        # Check for duplicate names (unnamed layers are called layer_0, layer_1, ...)
+        names = self.mask_names
+        if names is None and self.masks is not None:
+            n_layers = 1 if self.masks.ndim == 1 else self.masks.shape[1]
+            names = [f"layer_{i}" for i in range(n_layers)]
+        if names is not None and name in names:
             raise ValueError(f"Mask layer '{name}' already exists")
 
         # Initialize or append to masks
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 9840e5e..3032f18 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1778,8 +1778,12 @@ class GSTensor:
         if mask.shape != (len(self),):
             raise ValueError(f"Mask shape {mask.shape} doesn't match data length ({len(self)},)")
 
-        # Check for duplicate names
-        if self.mask_names is not None and name in self.mask_names:
+        # Check for duplicate names (unnamed layers are called layer_0, layer_1, ...)
+        names = self.mask_names
+        if names is None and self.masks is not None:
+            n_layers = 1 if self.masks.ndim == 1 else self.masks.shape[1]
+            names = [f"layer_{i}" for i in range(n_layers)]
+        if names is not None and name in names:
             raise ValueError(f"Mask layer '{name}' already exists")
 
         # Initialize or append to masks
-- 
2.43.0


From 6a4129afe54420299f708afc5436ed0bd94e22a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:31 +0000
Subject: [PATCH 22/28] fix: the first mask layer stores its own copy of the
 mask

---
 src/gsply/gsdata.py         | 2 +-
 src/gsply/torch/gstensor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index cfa2589..37ea351 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -685,7 +685,7 @@ class GSData:
 
         # Initialize or append to masks
         if self.masks is None:
-            self.masks = mask[:, None]  # Shape (N, 1)
+            self.masks = mask[:, None].copy()  # Shape (N, 1), not the caller's array
             self.mask_names = [name]
         else:
             # Ensure masks is 2D
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 3032f18..8723f04 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1788,7 +1788,7 @@ class GSTensor:
 
         # Initialize or append to masks
         if self.masks is None:
-            self.masks = mask.unsqueeze(-1)  # Shape (N, 1)
+            self.masks = mask.unsqueeze(-1).clone()  # Shape (N, 1), not the caller's tensor
             self.mask_names = [name]
         else:
             # Ensure masks is 2D
-- 
2.43.0


From 81bd3f437a01ddcd4a0ad0f01394efcbc67177f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:13 +0000
Subject: [PATCH 23/28] fix: detect_format reports an unusable path as unknown
 instead of raising

---
 src/gsply/formats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsply/formats.py b/src/gsply/formats.py
index ec65799..b71307a 100644
--- a/src/gsply/formats.py
+++ b/src/gsply/formats.py
@@ -224,11 +224,11 @@ def detect_format(file_path: str | Path) -> tuple[bool, int | None]:
     """
     file_path = Path(file_path)
 
-    # Check file existence first
-    if not file_path.exists():
-        return False, None
-
     try:
+        # Check file existence first
+        if not file_path.exists():
+            return False, None
+
         elements, _ = _parse_ply_header(file_path)
     except Exception:
         return False, None
-- 
2.43.0


From bc1c93750a4ced018348db31a856a6c72c2f1403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 24/28] fix: sigmoid and logit of integer and 0-d arrays return
 the values of the scalar form

---
 src/gsply/utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/gsply/utils.py b/src/gsply/utils.py
index e8b4ae4..1f0ec76 100644
--- a/src/gsply/utils.py
+++ b/src/gsply/utils.py
@@ -53,6 +53,11 @@ def rgb2sh(rgb: np.ndarray | float) -> np.ndarray | float:
     return (rgb - 0.5) / SH_C0
 
 
+def _as_float_array(x: np.ndarray) -> np.ndarray:
+    """Integer and boolean arrays cannot hold the result; compute those in float64."""
+    return x if np.issubdtype(x.dtype, np.floating) else x.astype(np.float64)
+
+
 @jit(nopython=True, parallel=True, fastmath=True, cache=True, nogil=True, boundscheck=False)
 def _logit_impl(x: np.ndarray, out: np.ndarray, eps: float):
     for i in prange(x.size):
@@ -74,11 +79,12 @@ def logit(x: np.ndarray | float, eps: float = 1e-6) -> np.ndarray | float:
     :param eps: Epsilon for numerical stability (clamping)
     :returns: Logit values
     """
-    if np.isscalar(x):
+    if np.ndim(x) == 0:
         val = float(x)
         val = max(eps, min(val, 1.0 - eps))
         return np.log(val / (1.0 - val))
 
+    x = _as_float_array(x)
     out = np.empty_like(x)
     _logit_impl(x, out, eps)
     return out
@@ -105,13 +111,14 @@ def sigmoid(x: np.ndarray | float) -> np.ndarray | float:
     :param x: Input values (logits)
     :returns: Values in [0, 1] range (probabilities)
     """
-    if np.isscalar(x):
+    if np.ndim(x) == 0:
         val = float(x)
         if val >= 0:
             return 1.0 / (1.0 + np.exp(-val))
         z = np.exp(val)
         return z / (1.0 + z)
 
+    x = _as_float_array(x)
     out = np.empty_like(x)
     _sigmoid_impl(x, out)
     return out
-- 
2.43.0


From 36008630fa198ee0cb85cbcf1d465fd468e77dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 25/28] fix: activation kernels use double precision, so
 extreme parameters and quaternions give finite values

---
 src/gsply/utils.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/gsply/utils.py b/src/gsply/utils.py
index 1f0ec76..2d3af12 100644
--- a/src/gsply/utils.py
+++ b/src/gsply/utils.py
@@ -155,9 +155,9 @@ def _activate_gaussians_numba(
     scales: Float32Array,
     opacities: Float32Array,
     quats: Float32Array,
-    min_scale: np.float32,
-    max_scale: np.float32,
-    min_quat_norm: np.float32,
+    min_scale: float,
+    max_scale: float,
+    min_quat_norm: float,
 ) -> None:
     """
     Fused attribute activation kernel.
@@ -196,10 +196,11 @@ def _activate_gaussians_numba(
         opacities[i] = sigmoid
 
         # Quaternion activation: normalize with safety floor
-        qx = quats[i, 0]
-        qy = quats[i, 1]
-        qz = quats[i, 2]
-        qw = quats[i, 3]
+        # (double precision: the squares of finite float32 values cannot overflow or vanish)
+        qx = np.float64(quats[i, 0])
+        qy = np.float64(quats[i, 1])
+        qz = np.float64(quats[i, 2])
+        qw = np.float64(quats[i, 3])
 
         norm = np.sqrt(qx * qx + qy * qy + qz * qz + qw * qw)
         if norm < min_quat_norm:
@@ -219,9 +220,9 @@ def _activate_gaussians_numba(
 def _deactivate_gaussians_numba(
     scales: Float32Array,
     opacities: Float32Array,
-    min_scale: np.float32,
-    min_opacity: np.float32,
-    max_opacity: np.float32,
+    min_scale: float,
+    min_opacity: float,
+    max_opacity: float,
 ) -> None:
     """
     Fused attribute deactivation kernel (reverse of activation).
@@ -340,9 +341,9 @@ def apply_pre_activations(
         scales,
         opacity_view,
         quats,
-        np.float32(min_scale),
-        np.float32(max_scale),
-        np.float32(min_quat_norm),
+        float(min_scale),
+        float(max_scale),
+        float(min_quat_norm),
     )
 
     data.scales = scales
@@ -427,9 +428,9 @@ def apply_pre_deactivations(
     _deactivate_gaussians_numba(
         scales,
         opacity_view,
-        np.float32(min_scale),
-        np.float32(min_opacity),
-        np.float32(max_opacity),
+        float(min_scale),
+        float(min_opacity),
+        float(max_opacity),
     )
 
     data.scales = scales
-- 
2.43.0


From baeeed6dce48c1e05f288feefbfc0e79be1152f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 26/28] fix: NaN activation parameters are rejected like other
 invalid ones

---
 src/gsply/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gsply/utils.py b/src/gsply/utils.py
index 2d3af12..0ddcadb 100644
--- a/src/gsply/utils.py
+++ b/src/gsply/utils.py
@@ -307,11 +307,11 @@ def apply_pre_activations(
 
         apply_pre_activations._GSData = _GSData
 
-    if min_scale <= 0:
+    if not min_scale > 0:
         raise ValueError("min_scale must be positive to avoid degenerate exponentiation results.")
-    if max_scale <= 0 or max_scale < min_scale:
+    if not (max_scale > 0 and max_scale >= min_scale):
         raise ValueError("max_scale must be positive and >= min_scale.")
-    if min_quat_norm <= 0:
+    if not min_quat_norm > 0:
         raise ValueError("min_quat_norm must be positive.")
 
     if not inplace:
@@ -398,9 +398,9 @@ def apply_pre_deactivations(
 
         apply_pre_deactivations._GSData = _GSData
 
-    if min_scale <= 0:
+    if not min_scale > 0:
         raise ValueError("min_scale must be positive to avoid degenerate logarithm results.")
-    if min_opacity <= 0 or max_opacity >= 1.0:
+    if not (min_opacity > 0 and max_opacity < 1.0):
         raise ValueError("min_opacity must be positive and max_opacity must be < 1.0.")
     if max_opacity <= min_opacity:
         raise ValueError("max_opacity must be > min_opacity.")
-- 
2.43.0


From 923fb941ccbc7ce136d54ddc535bceb30db99605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 27/28] fix: consolidate and in-place colour conversion reject
 arrays of the wrong shape instead of reading out of bounds

---
 src/gsply/gsdata.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 37ea351..b94d22d 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -874,6 +874,17 @@ class GSData:
         scales = np.ascontiguousarray(self.scales, dtype=np.float32)
         quats = np.ascontiguousarray(self.quats, dtype=np.float32)
 
+        # The kernels index without bounds checks
+        for name, array, shape in (
+            ("means", means, (n_gaussians, 3)),
+            ("sh0", sh0, (n_gaussians, 3)),
+            ("opacities", opacities, (n_gaussians,)),
+            ("scales", scales, (n_gaussians, 3)),
+            ("quats", quats, (n_gaussians, 4)),
+        ):
+            if array.shape != shape:
+                raise ValueError(f"{name} has shape {array.shape}, expected {shape}")
+
         # Determine property count and use appropriate JIT kernel
         # Layout: means(3) + sh0(3) + shN(K*3) + opacity(1) + scales(3) + quats(4)
         if self.shN is not None and self.shN.shape[1] > 0:
@@ -1558,6 +1569,8 @@ class GSData:
         from gsply.utils import _sh2rgb_inplace_jit
 
         if inplace:
+            if self.sh0.ndim != 2 or self.sh0.shape[1] != 3:
+                raise ValueError(f"sh0 must have shape (N, 3), got {self.sh0.shape}")
             # True in-place: modify self.sh0 directly using Numba JIT
             _sh2rgb_inplace_jit(self.sh0, SH_C0)
             self._base = None  # Invalidate _base since we modified arrays
@@ -1604,6 +1617,8 @@ class GSData:
         from gsply.utils import _rgb2sh_inplace_jit
 
         if inplace:
+            if self.sh0.ndim != 2 or self.sh0.shape[1] != 3:
+                raise ValueError(f"sh0 must have shape (N, 3), got {self.sh0.shape}")
             # True in-place: modify self.sh0 directly using Numba JIT
             _rgb2sh_inplace_jit(self.sh0, 1.0 / SH_C0)
             self._base = None  # Invalidate _base since we modified arrays
-- 
2.43.0


From e994b3342f64c23fb948f0337e7b1c3a60cacddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 28/28] fix: GSTensor.from_gsdata accepts a reversed container
 of one Gaussian

---
 src/gsply/torch/gstensor.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 8723f04..4260b05 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -31,6 +31,16 @@ from gsply.torch.compression import read_compressed_gpu
 # (writer.py and reader.py import GSData at module level, creating circular imports)
 
 
+def _contiguous(array: np.ndarray) -> np.ndarray:
+    """Contiguous array without negative strides, as torch.from_numpy requires.
+
+    A reversed view of at most one row counts as contiguous, so np.ascontiguousarray
+    returns it with its negative stride.
+    """
+    array = np.ascontiguousarray(array)
+    return array.copy() if any(stride < 0 for stride in array.strides) else array
+
+
 @dataclass
 class GSTensor:
     """GPU-accelerated Gaussian Splatting data container using PyTorch tensors.
@@ -380,7 +390,7 @@ class GSTensor:
         # Fast path: Use _base if available (11x faster)
         if data._base is not None:
             # Ensure array is contiguous (handles sliced data edge case)
-            base_array = np.ascontiguousarray(data._base)
+            base_array = _contiguous(data._base)
 
             # Single tensor transfer (zero CPU copy if already contiguous)
             base_tensor = torch.from_numpy(base_array).to(device=device_obj, dtype=dtype)
@@ -389,7 +399,7 @@ class GSTensor:
             # Transfer masks separately if present
             masks_tensor = None
             if data.masks is not None:
-                masks_array = np.ascontiguousarray(data.masks)
+                masks_array = _contiguous(data.masks)
                 masks_tensor = torch.from_numpy(masks_array).to(device=device_obj)
 
             # Recreate GSTensor from base tensor (preserve format from GSData)
@@ -440,7 +450,7 @@ class GSTensor:
         # Transfer masks separately
         masks_tensor = None
         if data.masks is not None:
-            masks_array = np.ascontiguousarray(data.masks)
+            masks_array = _contiguous(data.masks)
             masks_tensor = torch.from_numpy(masks_array).to(device=device_obj)
 
         # Recreate GSTensor from base tensor (preserve format from GSData)
-- 
2.43.0

