From 59308e0d1eca9ee2d82d8700c525c525718d1aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 01/65] fix: ihex writer emits an extended address record
 whenever the 64K page changes

---
 objutils/ihex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/objutils/ihex.py b/objutils/ihex.py
index 7337044..01f73a1 100644
--- a/objutils/ihex.py
+++ b/objutils/ihex.py
@@ -122,8 +122,9 @@ class Writer(hexfile.Writer):
     def compose_row(self, address, length, row):
         result = ""
         seg, offs = divmod(address, 0x10000)
+        base = address - offs
         hi, lo = self.word_to_bytes(address)
-        if offs != self.previosAddress:
+        if (base, offs) != self.previosAddress:
             # print("NEQ: {0:04x} [{1:04x}:{2:04x}]".format(address, seg, offs))
             if address > 0xFFFF:
                 if address > 0xFFFFF:
@@ -135,7 +136,7 @@ class Writer(hexfile.Writer):
                     result = f":02000002{int(seg):04X}{self.checksum(list((2, 2, segHi, segLo))):02X}\n"
         address = offs
         checksum = self.checksum(list((length, hi, lo)) + list(row))
-        self.previosAddress = offs + length
+        self.previosAddress = (base, offs + length)
         result += f":{length:02X}{address:04X}{DATA:02X}{Writer.hex_bytes(row)!s}{checksum:02X}"
         return result
 
-- 
2.43.0


From fc8a4b9e83681155f6ca79d1f291c6c950df2348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 02/65] fix: Image has no valid argument, readers raised
 TypeError

---
 objutils/binfile.py | 2 +-
 objutils/hexfile.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index cdbf28d..db0614f 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -50,7 +50,7 @@ class Reader:
             fp = open(fp, "rb")
         data = fp.read()
         sec = Section(address, data)
-        img = Image([sec], valid=True)
+        img = Image([sec])
         if hasattr(fp, "close"):
             fp.close()
         return img
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index cabd088..b023485 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -261,7 +261,7 @@ class Reader(BaseType):
             return Image(sections=join_sections(sections), meta=meta_data)
         else:
             self.error("File seems to be invalid.")
-            return Image([], valid=False)
+            return Image([])
 
     def _address_space(self, value):
         if value < 2**16:
-- 
2.43.0


From ee3dae0f55bd0b138d2ec1ebef09d83e5a73c271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 03/65] fix: images whose last byte sits at the top of the
 address range were refused

---
 objutils/hexfile.py | 5 ++---
 objutils/sig.py     | 2 +-
 objutils/srec.py    | 2 +-
 objutils/tek.py     | 2 +-
 4 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index b023485..ae75e5d 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -24,7 +24,6 @@ __copyright__ = """
   51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 """
 
-import math
 import os
 import re
 from collections import defaultdict, namedtuple
@@ -368,8 +367,8 @@ class Writer(BaseType):
             last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
         else:
             last_segment = image
-        highest_address = last_segment.start_address + last_segment.length
-        return int(math.ceil(math.log(highest_address + 1) / math.log(2)))
+        highest_address = last_segment.start_address + max(last_segment.length, 1) - 1
+        return highest_address.bit_length()
 
     def post_processing(self, data):
         if not data.endswith(b"\n"):
diff --git a/objutils/sig.py b/objutils/sig.py
index 23c7120..9c3f8a6 100644
--- a/objutils/sig.py
+++ b/objutils/sig.py
@@ -65,7 +65,7 @@ class Writer(hexfile.Writer):
         )
         data_checksum = checksums.rotatedXOR(row, 8, checksums.ROTATE_LEFT)
         line = f":{address:04X}{length:02X}{address_checksum:02X}{Writer.hex_bytes(row)}{data_checksum:02X}"
-        self.last_address = address + length
+        self.last_address = (address + length) & 0xFFFF
         return line
 
     def compose_footer(self, meta):
diff --git a/objutils/srec.py b/objutils/srec.py
index 229758e..0488057 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -153,7 +153,7 @@ class Writer(hexfile.Writer):
                 last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
             else:
                 last_segment = image
-            highest_address = last_segment.start_address + last_segment.length
+            highest_address = last_segment.start_address + max(last_segment.length, 1) - 1
             if highest_address <= 0x000000FFFF:
                 self.record_type = 1
             elif highest_address <= 0x00FFFFFF:
diff --git a/objutils/tek.py b/objutils/tek.py
index 02dd6d0..d0cee8b 100644
--- a/objutils/tek.py
+++ b/objutils/tek.py
@@ -68,5 +68,5 @@ class Writer(hexfile.Writer):
 
         data_checksum = checksums.nibble_sum(row)
         line = f"/{address:04X}{length:02X}{address_checksum:02X}{Writer.hex_bytes(row)!s}{data_checksum:02X}"
-        self.last_address = address + length
+        self.last_address = (address + length) & 0xFFFF
         return line
-- 
2.43.0


From 1ee6bba72ebdd4c6e21fdd08a70de70845242e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 04/65] fix: etek writer and reader use the five digit address
 the record length accounts for

---
 objutils/etek.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/etek.py b/objutils/etek.py
index ed55daa..4028869 100644
--- a/objutils/etek.py
+++ b/objutils/etek.py
@@ -47,7 +47,7 @@ class Reader(hexfile.Reader):
 
     def check_line(self, line, format_type):
         if format_type == DATA:
-            line.length = (line.length / 2) - 5
+            line.length = (line.length // 2) - 5
             checksum = checksums.nibble_sum(
                 utils.make_list(
                     utils.int_to_array(line.address),
@@ -76,10 +76,10 @@ class Reader(hexfile.Reader):
 
 
 class Writer(hexfile.Writer):
-    MAX_ADDRESS_BITS = 24
+    MAX_ADDRESS_BITS = 20
 
     def compose_row(self, address, length, row):
         checksum = checksums.nibble_sum(utils.make_list(utils.int_to_array(address), 6, ((length + 5) * 2), row))
 
-        line = f"%{(length + 5) * 2:02X}6{checksum:02X}{address:04X}{Writer.hex_bytes(row)!s}"
+        line = f"%{(length + 5) * 2:02X}6{checksum:02X}{address:05X}{Writer.hex_bytes(row)!s}"
         return line
-- 
2.43.0


From 4e0c64cb2042cf691ff2274659571a4726179c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 05/65] fix: fpc writer wrote a decimal length field and
 dropped rows that are no multiple of four bytes

---
 objutils/fpc.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index 89affb8..1a10aad 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -142,11 +142,12 @@ class Writer(hexfile.Writer):
             8,
             checksums.COMPLEMENT_TWOS,
         )
-        if length < self.row_length:
-            lengthToPad = self.row_length - length
-            padding = [0] * (lengthToPad)
-            row.extend(padding)
-        line = f"{checksum:02X}{length - 2}0000{address:08X}{Writer.hex_bytes(row)}"
+        # Lines consist of complete 32-bit words.
+        lengthToPad = max(self.row_length, length) - length
+        lengthToPad += -(length + lengthToPad) % 4
+        padding = [0] * (lengthToPad)
+        row.extend(padding)
+        line = f"{checksum:02X}{length + 4:02X}0000{address:08X}{Writer.hex_bytes(row)}"
         return line
 
     def compose_footer(self, meta):
-- 
2.43.0


From 8563ef4b5c1a0bca4acbbd43b3da2d2e44c4ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 06/65] fix: ash writer omitted the address terminator its
 reader requires

---
 objutils/ash.py     | 1 +
 objutils/hexfile.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/objutils/ash.py b/objutils/ash.py
index e6d6996..3aecbe2 100644
--- a/objutils/ash.py
+++ b/objutils/ash.py
@@ -65,6 +65,7 @@ class Reader(hexfile.ASCIIHexReader):
 class Writer(hexfile.ASCIIHexWriter):
     MAX_ADDRESS_BITS = 16
     ADDRESS_DESIGNATOR = "$A"
+    address_terminator = ","
 
     def __init__(self, address_designator="$A"):
         super().__init__(address_designator)
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index ae75e5d..1618362 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -470,6 +470,7 @@ class ASCIIHexReader(Reader):
 
 class ASCIIHexWriter(Writer):
     MAX_ADDRESS_BITS = 16
+    address_terminator = ""
     previous_address = None
 
     def __init__(self, address_designator):
@@ -482,7 +483,7 @@ class ASCIIHexWriter(Writer):
         self.previous_address = address + length
         if prepend_address:
             line = "{}\n{}".format(
-                f"{self.address_designator}{address:04X}",
+                f"{self.address_designator}{address:04X}{self.address_terminator}",
                 f"{self.separator}".join([f"{x:02X}" for x in row]),
             )
         else:
-- 
2.43.0


From 7be6b8dffb12989da032d2c79a1fbda588c218c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 07/65] fix: writer options were silently ignored

---
 objutils/hexfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 1618362..185fc84 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -331,7 +331,7 @@ class Writer(BaseType):
     def dump(self, fp, image, row_length=16, **kws):  # TODO: rename to bytesPerRow!
         if isinstance(fp, str):
             fp = open(fp, "wb")
-        fp.write(self.dumps(image, row_length))
+        fp.write(self.dumps(image, row_length, **kws))
         if hasattr(fp, "close"):
             fp.close()
 
@@ -342,7 +342,7 @@ class Writer(BaseType):
             return b""
         if self.calculate_address_bits(image) > self.MAX_ADDRESS_BITS:
             raise AddressRangeToLargeError("could not encode image.")
-        # params = self.set_parameters(**kws)
+        self.set_parameters(**kws)
         self.pre_processing(image)
         header = self.compose_header(image.meta if hasattr(image, "meta") else {})
         if header:
-- 
2.43.0


From db148c2febf1459981f5a102f86c71db1bc34d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 08/65] fix: S0 records were rewritten with 24/32-bit addresses

---
 objutils/srec.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index 0488057..48623ec 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -160,16 +160,19 @@ class Writer(hexfile.Writer):
                 self.record_type = 2
             elif highest_address <= 0xFFFFFFFF:
                 self.record_type = 3
-        self.address_mask = f"%0{(self.record_type + 1) * 2:d}X"
-        self.offset = self.record_type + 2
+
+    def address_width(self, record_type):
+        """Number of address bytes."""
+        return 2 if record_type == 0 else self.record_type + 1
 
     def srecord(self, record_type, length, address, data=None):
         if data is None:
             data = []
-        length += self.offset
+        address_width = self.address_width(record_type)
+        length += address_width + 1
         address_bytes = utils.int_to_array(address)
         checksum = self.checksum(make_list(address_bytes, length, data))
-        mask = f"S%u%02X{self.address_mask!s}%s%02X"
+        mask = f"S%u%02X%0{address_width * 2:d}X%s%02X"
         return mask % (record_type, length, address, Writer.hex_bytes(data), checksum)
 
     def compose_row(self, address, length, row):
-- 
2.43.0


From 0fbf42b8833cbd67ca7e07e3baf41d77a03e0a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 09/65] fix: refuse row lengths that overflow the length field
 of a record

---
 objutils/etek.py    | 3 +++
 objutils/fpc.py     | 3 +++
 objutils/hexfile.py | 6 ++++++
 objutils/srec.py    | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/objutils/etek.py b/objutils/etek.py
index 4028869..75a5b4a 100644
--- a/objutils/etek.py
+++ b/objutils/etek.py
@@ -78,6 +78,9 @@ class Reader(hexfile.Reader):
 class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 20
 
+    def max_row_length(self):
+        return 255 // 2 - 5
+
     def compose_row(self, address, length, row):
         checksum = checksums.nibble_sum(utils.make_list(utils.int_to_array(address), 6, ((length + 5) * 2), row))
 
diff --git a/objutils/fpc.py b/objutils/fpc.py
index 1a10aad..1227dfe 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -153,6 +153,9 @@ class Writer(hexfile.Writer):
     def compose_footer(self, meta):
         return "00000000"
 
+    def max_row_length(self):
+        return 255 - 4
+
     def post_processing(self, data):
         result = []
         for line in data.splitlines():
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 185fc84..5d1bbce 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -344,6 +344,8 @@ class Writer(BaseType):
             raise AddressRangeToLargeError("could not encode image.")
         self.set_parameters(**kws)
         self.pre_processing(image)
+        if row_length > self.max_row_length():
+            raise InvalidRecordLengthError(f"row_length must not exceed {self.max_row_length()}.")
         header = self.compose_header(image.meta if hasattr(image, "meta") else {})
         if header:
             result.append(header)
@@ -378,6 +380,10 @@ class Writer(BaseType):
     def pre_processing(self, image):
         pass
 
+    def max_row_length(self):
+        """Number of data bytes the length field of a record is able to express."""
+        return 255
+
     def set_parameters(self, **kws):
         params = {}
         for k, v in kws.items():
diff --git a/objutils/srec.py b/objutils/srec.py
index 48623ec..383443c 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -161,6 +161,9 @@ class Writer(hexfile.Writer):
             elif highest_address <= 0xFFFFFFFF:
                 self.record_type = 3
 
+    def max_row_length(self):
+        return 255 - (self.record_type + 2)
+
     def address_width(self, record_type):
         """Number of address bytes."""
         return 2 if record_type == 0 else self.record_type + 1
-- 
2.43.0


From b78e8c5f8d5b4b67c0e6a9b6c4c9c6bf4465b2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 10/65] fix: joining sections modified the data of the sections
 passed in

---
 objutils/section.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/section.py b/objutils/section.py
index a1e8ea6..9f96cd5 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -186,7 +186,7 @@ class Section:
     """
 
     start_address = attr.ib(type=int, eq=True, order=True, default=0)
-    data = attr.ib(default=bytearray(), converter=_data_converter, eq=True, order=True)
+    data = attr.ib(factory=bytearray, converter=_data_converter, eq=True, order=True)
 
     def __attrs_post_init__(self):
         self.repr = reprlib.Repr()
@@ -443,9 +443,9 @@ def join_sections(sections):
         else:
             # Create a new section.
             if isinstance(sections, SortedList):
-                result_sections.add(Section(section.start_address, section.data))
+                result_sections.add(Section(section.start_address, bytearray(section.data)))
             else:
-                result_sections.append(Section(section.start_address, section.data))
+                result_sections.append(Section(section.start_address, bytearray(section.data)))
         prev_section = section
     if result_sections:
         return result_sections
-- 
2.43.0


From 512e65fd7285b9b0316e03947d8edf15e5b3beb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 11/65] fix: insert_section accepted sections that enclose an
 existing one

---
 objutils/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/image.py b/objutils/image.py
index abf2f87..bef2a04 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -217,7 +217,7 @@ class Image:
         -------
         bool
         """
-        return address in self or (address + length - 1) in self
+        return any(sec.start_address < address + length and address < sec.start_address + sec.length for sec in self.sections)
 
     def insert_section(self, data, start_address=None, join=True):
         """Insert/add a new section to image.
-- 
2.43.0


From 4d86d0b28d9b1cdb40e1fc33afc6518b64c4f166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 12/65] fix: string access was not bounds checked

---
 objutils/section.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/objutils/section.py b/objutils/section.py
index 9f96cd5..3dc0b66 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -336,6 +336,8 @@ class Section:
             pos = length
         if pos == -1:
             raise TypeError("Unterminated String!!!")  # TODO: Testcase.
+        if offset + pos > self.length:
+            raise InvalidAddressError(f"read_string(0x{addr:08x}) access out of bounds.")
         return self.data[offset : offset + pos].decode(encoding=encoding)
 
     def write_string(self, addr, value, encoding="latin1", **kws):
@@ -343,10 +345,13 @@ class Section:
         if offset < 0:
             raise InvalidAddressError(f"write_string(0x{addr:08x}) access out of bounds.")
         if PYTHON_VERSION.major == 3:
-            self.data[offset : offset + len(value)] = bytes(value, encoding=encoding)
+            data = bytes(value, encoding=encoding)
         else:
-            self.data[offset : offset + len(value)] = bytes(value)
-        self.data[offset + len(value)] = 0
+            data = bytes(value)
+        data += b"\x00"
+        if offset + len(data) > self.length:
+            raise InvalidAddressError(f"write_string(0x{addr:08x}) access out of bounds.")
+        self.data[offset : offset + len(data)] = data
 
     def write_ndarray(self, addr, array, order=None, **kws):
         """ """
-- 
2.43.0


From 22372d3a3b4b3090f39d43e2d39976f3d83d6996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 13/65] fix: empty numeric arrays and bit masks on plain bytes

---
 objutils/section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/section.py b/objutils/section.py
index 3dc0b66..f4ea870 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -226,7 +226,7 @@ class Section:
         """ """
         fmt, bo = self._verify_dtype(dtype)
 
-        if length > 1:
+        if length != 1:
             return f"{BYTEORDER.get(bo)}{length}{FORMATS.get(fmt)}"
         else:
             return f"{BYTEORDER.get(bo)}{FORMATS.get(fmt)}"
@@ -281,7 +281,7 @@ class Section:
 
     def apply_bitmask(self, data, dtype, bit_mask):
         """ """
-        dtype, byteorder = dtype.lower().strip().split("_")
+        dtype, byteorder = self._verify_dtype(dtype)
         byteorder = "little" if byteorder == "le" else "big"
         # type_size = TYPE_SIZES.get(dtype)
         data_size = len(data)
-- 
2.43.0


From dff431a5f5d6f9a6e0295fd15f0cba0e297cfd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 14/65] fix: diff_bin lost modifications at the end of the
 common range

---
 objutils/utils/diff.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/utils/diff.py b/objutils/utils/diff.py
index 56b6c3c..54e7543 100644
--- a/objutils/utils/diff.py
+++ b/objutils/utils/diff.py
@@ -90,6 +90,8 @@ def diff_bin(a, b):
             if diff_bytes_a:
                 tmp.append(BinDiff("M", start_offset, diff_bytes_a, diff_bytes_b))
                 diff_bytes_a, diff_bytes_b = bytearray(), bytearray()
+    if diff_bytes_a:
+        tmp.append(BinDiff("M", start_offset, diff_bytes_a, diff_bytes_b))
     if lb > la:
         tmp.append(BinDiff("A", len(a), None, b[-(lb - la) :]))
     elif lb < la:
-- 
2.43.0


From 18ad907bf3710cf5dec2f8acb059ec81620aca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 15/65] fix: short positive SLEB128 numbers were decoded as
 negative ones

---
 objutils/dwarf/encoding.py | 2 +-
 objutils/readers.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/dwarf/encoding.py b/objutils/dwarf/encoding.py
index 0d78ef1..14b2be4 100644
--- a/objutils/dwarf/encoding.py
+++ b/objutils/dwarf/encoding.py
@@ -105,7 +105,7 @@ class SLEB(Construct):
             idx += 1
             if bval & 0x80 == 0:
                 break
-        if (shift < 32) or (bval & 0x40) == 0x40:
+        if (bval & 0x40) == 0x40:
             mask = -(1 << (idx * 7))
             result |= mask
         return result
diff --git a/objutils/readers.py b/objutils/readers.py
index bfdbd51..a69bef3 100644
--- a/objutils/readers.py
+++ b/objutils/readers.py
@@ -114,7 +114,7 @@ class PlainBinaryReader:
             idx += 1
             if bval & 0x80 == 0:
                 break
-        if (shift < 32) or (bval & 0x40) == 0x40:
+        if (bval & 0x40) == 0x40:
             mask = -(1 << (idx * 7))
             result |= mask
         return result
-- 
2.43.0


From b7683bd7bdb42b01102369d909d699eee48e89bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 16/65] fix: PlainBinaryReader 32-bit accessors failed with
 native byte order

---
 objutils/readers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/readers.py b/objutils/readers.py
index a69bef3..30a8022 100644
--- a/objutils/readers.py
+++ b/objutils/readers.py
@@ -75,7 +75,7 @@ class PlainBinaryReader:
         return self.value("H", 2)
 
     def u32(self):
-        return self.value("L", 4)
+        return self.value("I", 4)
 
     def u64(self):
         return self.value("Q", 8)
@@ -87,7 +87,7 @@ class PlainBinaryReader:
         return self.value("h", 2)
 
     def s32(self):
-        return self.value("l", 4)
+        return self.value("i", 4)
 
     def s64(self):
         return self.value("q", 8)
-- 
2.43.0


From 21c122eb4fdb31a716f4641ac50c1ba75ea4a517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 17/65] fix: DW_FORM_implicit_const is a signed LEB128 number

---
 objutils/dwarf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 4f51d3d..5dc32c0 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -188,7 +188,7 @@ class Abbrevations:
 
     SpecialValueStruct = Struct(
         "start" / Tell,
-        "value" / ULEB,
+        "value" / SLEB,
         "stop" / Tell,
     )
 
-- 
2.43.0


From 325e32fa63175ea47a083b35ce0340dce0b5a282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 18/65] fix: bin writer failed with integer fillers and skipped
 gaps with an empty one

---
 objutils/binfile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index db0614f..adbc3c5 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -76,10 +76,12 @@ class Writer:
     def dumps(self, image, filler=b"\xff", **kws):
         if not isinstance(filler, (bytes, int)):
             raise TypeError("filler must be of type 'bytes' or 'int'")
-        if isinstance(filler, bytes) and len(filler) > 1:
+        if isinstance(filler, bytes) and len(filler) != 1:
             raise TypeError("filler must be a single byte")
-        elif isinstance(filler, int) and filler > 255:
-            raise ValueError("filler must be in range 0..255")
+        elif isinstance(filler, int):
+            if not 0 <= filler <= 255:
+                raise ValueError("filler must be in range 0..255")
+            filler = bytes([filler])
         result = bytearray()
         previous_address = None
         previous_length = None
-- 
2.43.0


From e55eace2ceb0f17f8ac8d3b77ebfa67ff6ce11a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 19/65] fix: probe() and probes() always failed with
 AttributeError

---
 objutils/__init__.py | 8 ++++++--
 objutils/fpc.py      | 3 ++-
 objutils/hexfile.py  | 6 +++++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/objutils/__init__.py b/objutils/__init__.py
index 711ea0a..26119d8 100644
--- a/objutils/__init__.py
+++ b/objutils/__init__.py
@@ -151,10 +151,12 @@ def probe(*args, **kws):
     found = False
     for _, codec in registry._codecs.items():
         reader = codec.Reader()
+        if not hasattr(reader, "probe"):
+            continue
         found = reader.probe(*args, **kws)
         if found:
             break
-    return reader.codec_name if found else None
+    return reader.codecName if found else None
 
 
 def probes(*args, **kws):
@@ -173,10 +175,12 @@ def probes(*args, **kws):
     found = False
     for _, codec in registry:
         reader = codec.Reader()
+        if not hasattr(reader, "probes"):
+            continue
         found = reader.probes(*args, **kws)
         if found:
             break
-    return reader.codec_name if found else None
+    return reader.codecName if found else None
 
 
 def dump(codec_name, *args, **kws):
diff --git a/objutils/fpc.py b/objutils/fpc.py
index 1227dfe..f72a11f 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -122,8 +122,9 @@ class Reader(hexfile.Reader):
         return format_type in (DATA_ABS, DATA_INC, DATA_REL)
 
     def probe(self, fp):
+        fp.seek(0, os.SEEK_SET)
         for idx, line in enumerate(fp, 1):
-            if not VALID_CHARS.match(line.decode()):
+            if not VALID_CHARS.match(line.decode("latin1")):
                 fp.seek(0, os.SEEK_SET)
                 return False
             if idx > 3:
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 5d1bbce..fd58478 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -278,7 +278,11 @@ class Reader(BaseType):
         fp.seek(0, os.SEEK_SET)
         header = fp.read(128)
         fp.seek(0, os.SEEK_SET)
-        result = not bool(self.VALID_CHARS.match(header.decode()))
+        try:
+            header = header.decode("ascii")
+        except UnicodeDecodeError:
+            return True
+        result = not bool(self.VALID_CHARS.match(header))
         return result
 
     def probe(self, fp):
-- 
2.43.0


From b57674df087916ef71596d94439b9f285f12351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:23 +0000
Subject: [PATCH 20/65] fix: readers and writers carried addresses of one file
 over to the next

---
 objutils/cosmac.py  | 5 +++++
 objutils/hexfile.py | 3 +++
 objutils/ihex.py    | 4 ++++
 objutils/srec.py    | 7 +++++++
 4 files changed, 19 insertions(+)

diff --git a/objutils/cosmac.py b/objutils/cosmac.py
index e20ae6d..4b27f4a 100644
--- a/objutils/cosmac.py
+++ b/objutils/cosmac.py
@@ -43,6 +43,11 @@ class Reader(hexfile.Reader):
     previous_address = 0
     previous_length = 0
 
+    def read(self, fp):
+        self.previous_address = 0
+        self.previous_length = 0
+        return super().read(fp)
+
     def check_line(self, line, format_type):
         return True
 
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index fd58478..f96c9d1 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -488,6 +488,9 @@ class ASCIIHexWriter(Writer):
         self.address_designator = address_designator
         super().__init__()
 
+    def pre_processing(self, image):
+        self.previous_address = None
+
     def compose_row(self, address, length, row):
         prepend_address = True if address != self.previous_address else False
         self.previous_address = address + length
diff --git a/objutils/ihex.py b/objutils/ihex.py
index 01f73a1..047c48e 100644
--- a/objutils/ihex.py
+++ b/objutils/ihex.py
@@ -49,6 +49,10 @@ class Reader(hexfile.Reader):
         super().__init__()
         self.segmentAddress = 0
 
+    def read(self, fp):
+        self._address_calculator = partial(operator.add, 0)  # Don't inherit the base address of a previous file.
+        return super().read(fp)
+
     def check_line(self, line, format_type):
         if line.length != len(line.chunk):
             raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
diff --git a/objutils/srec.py b/objutils/srec.py
index 383443c..596f5ea 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -147,6 +147,13 @@ class Writer(hexfile.Writer):
 
     checksum = partial(lrc, width=8, comp=COMPLEMENT_ONES)
 
+    def dumps(self, image, row_length=16, **kws):
+        record_type = self.record_type
+        try:
+            return super().dumps(image, row_length, **kws)
+        finally:
+            self.record_type = record_type  # The next image may need wider addresses.
+
     def pre_processing(self, image):
         if self.record_type is None:
             if hasattr(image, "sections"):
-- 
2.43.0


From b80e092d8985645bc1768b91dd46a8f9692a2e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:40 +0000
Subject: [PATCH 21/65] fix: blank lines in front of the first address gave an
 empty section at address 0

---
 objutils/hexfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index f96c9d1..3315ec5 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -454,7 +454,8 @@ class ASCIIHexReader(Reader):
             self.address,
             bytearray([int(ch, 16) for ch in filter(lambda x: x, self.SPLITTER.split(line))]),
         )
-        self.sections.append(section)
+        if section:  # Blank lines also match the data pattern.
+            self.sections.append(section)
         self.address += len(section)
         return True
 
-- 
2.43.0


From ef777dba8d128d55df37e4e94c5487570efffd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:59 +0000
Subject: [PATCH 22/65] fix: etek reader accepted odd record lengths

---
 objutils/etek.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/etek.py b/objutils/etek.py
index 75a5b4a..3d90d12 100644
--- a/objutils/etek.py
+++ b/objutils/etek.py
@@ -47,6 +47,8 @@ class Reader(hexfile.Reader):
 
     def check_line(self, line, format_type):
         if format_type == DATA:
+            if line.length != (len(line.chunk) + 5) * 2:
+                raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
             line.length = (line.length // 2) - 5
             checksum = checksums.nibble_sum(
                 utils.make_list(
@@ -56,8 +58,6 @@ class Reader(hexfile.Reader):
                     line.chunk,
                 )
             )
-            if line.length != len(line.chunk):
-                raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
             if line.checksum != checksum:
                 raise hexfile.InvalidRecordChecksumError()
         elif format_type == SYMBOL:
-- 
2.43.0


From b44626b03c25ee58bbdb555ad5563fe626c44f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:59 +0000
Subject: [PATCH 23/65] fix: records with a damaged type field were skipped
 instead of failing the checksum

---
 objutils/hexfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 3315ec5..3723388 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -64,7 +64,7 @@ ADDR_CHECKSUM = 7
 
 MAP_GROUP_TO_REGEX = {
     LENGTH: r"(?P<length>[0-9a-zA-Z]{%d})",
-    TYPE: r"(?P<type>\d{%d})",
+    TYPE: r"(?P<type>[0-9a-zA-Z]{%d})",
     ADDRESS: r"(?P<address>[0-9a-zA-Z]{%d})",
     DATA: r"(?P<chunk>[0-9a-zA-Z]+)",
     UNPARSED: r"(?P<chunk>.*)",
-- 
2.43.0


From b7217defd092b37a274202354164413df2952a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:59 +0000
Subject: [PATCH 24/65] fix: messages about invalid ihex records raised
 ValueError

---
 objutils/ihex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/ihex.py b/objutils/ihex.py
index 047c48e..6cf6a41 100644
--- a/objutils/ihex.py
+++ b/objutils/ihex.py
@@ -92,7 +92,7 @@ class Reader(hexfile.Reader):
                 line.add_processing_instruction(("ip", ip))
                 self.debug(f"START_SEGMENT_ADDRESS: {hex(cs)}:{hex(ip)}")
             else:
-                self.error(f"Bad Segment Address at line %{line.line_number:u}.")
+                self.error(f"Bad Segment Address at line %{line.line_number:d}.")
         elif line.type == EXTENDED_LINEAR_ADDRESS:
             self.calculate_extended_address(line, 16, "Linear")
         elif line.type == START_LINEAR_ADDRESS:
@@ -105,7 +105,7 @@ class Reader(hexfile.Reader):
         elif line.type == EOF:
             pass
         else:
-            self.warn(f"Invalid record type [{line.type:u}] at line {line.line_number:u}")
+            self.warn(f"Invalid record type [{line.type:d}] at line {line.line_number:d}")
 
     def _address_calculator(self, x):
         return x
-- 
2.43.0


From 77b865dd257ff88a16f69b40b2ca2bcb3083561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:59 +0000
Subject: [PATCH 25/65] fix: S-records with data beyond a byte count of zero
 were accepted

---
 objutils/srec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index 596f5ea..87749f6 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -98,7 +98,7 @@ class Reader(hexfile.Reader):
         if line.checksum != checksum:
             raise hexfile.InvalidRecordChecksumError()
         line.length -= BIAS[format_type]  # calculate actual data length.
-        if hasattr(line, "chunk") and line.length and (line.length != len(line.chunk)):
+        if hasattr(line, "chunk") and line.length != len(line.chunk):
             raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
 
     def is_data_line(self, line, format_type):
-- 
2.43.0


From c78cd6896505f79c89d37333196522db7a54a75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:06 +0000
Subject: [PATCH 26/65] fix: S-records were written with addresses that exceed
 the record type

---
 objutils/srec.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index 87749f6..c9496e8 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -155,18 +155,21 @@ class Writer(hexfile.Writer):
             self.record_type = record_type  # The next image may need wider addresses.
 
     def pre_processing(self, image):
+        if hasattr(image, "sections"):
+            last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
+        else:
+            last_segment = image
+        highest_address = last_segment.start_address + max(last_segment.length, 1) - 1
         if self.record_type is None:
-            if hasattr(image, "sections"):
-                last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
-            else:
-                last_segment = image
-            highest_address = last_segment.start_address + max(last_segment.length, 1) - 1
             if highest_address <= 0x000000FFFF:
                 self.record_type = 1
             elif highest_address <= 0x00FFFFFF:
                 self.record_type = 2
             elif highest_address <= 0xFFFFFFFF:
                 self.record_type = 3
+        for address in (highest_address, self.start_address or 0):
+            if address.bit_length() > self.address_width(self.record_type) * 8:
+                raise hexfile.AddressRangeToLargeError(f"0x{address:x} doesn't fit into S{self.record_type} records.")
 
     def max_row_length(self):
         return 255 - (self.record_type + 2)
-- 
2.43.0


From abf092f86b6d748078ae663613679b860d23441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:06 +0000
Subject: [PATCH 27/65] fix: negative row lengths wrote a file without data

---
 objutils/hexfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 3723388..42aeb77 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -348,8 +348,8 @@ class Writer(BaseType):
             raise AddressRangeToLargeError("could not encode image.")
         self.set_parameters(**kws)
         self.pre_processing(image)
-        if row_length > self.max_row_length():
-            raise InvalidRecordLengthError(f"row_length must not exceed {self.max_row_length()}.")
+        if not 1 <= row_length <= self.max_row_length():
+            raise InvalidRecordLengthError(f"row_length must be between 1 and {self.max_row_length()}.")
         header = self.compose_header(image.meta if hasattr(image, "meta") else {})
         if header:
             result.append(header)
-- 
2.43.0


From d2fcb25df57b244c8447d526ceb184e99415c3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:24 +0000
Subject: [PATCH 28/65] fix: calling Registry() again forgot all registered
 codecs

---
 objutils/registry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objutils/registry.py b/objutils/registry.py
index 6e9d1bb..5083ccf 100644
--- a/objutils/registry.py
+++ b/objutils/registry.py
@@ -42,7 +42,8 @@ Codec = namedtuple("Codec", "Reader Writer description")
 
 class Registry(SingletonBase):
     def __init__(self):
-        self._codecs = OrderedDict()
+        if not hasattr(self, "_codecs"):  # __init__ runs on every call of the singleton.
+            self._codecs = OrderedDict()
 
     def __iter__(self):
         return iter(self._codecs.items())
-- 
2.43.0


From 2c701c12f2607990d964147107f64423d8aaf41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:26 +0000
Subject: [PATCH 29/65] fix: codecs registered under a name with upper case
 letters could not be found

---
 objutils/registry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/objutils/registry.py b/objutils/registry.py
index 5083ccf..76b84f2 100644
--- a/objutils/registry.py
+++ b/objutils/registry.py
@@ -61,9 +61,10 @@ class Registry(SingletonBase):
         return codec
 
     def register(self, name, readerClass, writerClass, description=""):
-        if name in self.codecs:
+        key = name.lower()  # get() ignores case.
+        if key in self.codecs:
             raise CodecAlreadyExistError(name)
-        self._codecs[name] = Codec(readerClass, writerClass, description)
+        self._codecs[key] = Codec(readerClass, writerClass, description)
         readerClass.codecName = name
         writerClass.codecName = name
 
-- 
2.43.0


From d597080a4b5c9639dce3b5b8e0f63ad65a0f9ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 30/65] fix: hex dumps contained the unprintable DEL character

---
 objutils/hexdump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/hexdump.py b/objutils/hexdump.py
index 0107393..feacb77 100644
--- a/objutils/hexdump.py
+++ b/objutils/hexdump.py
@@ -28,7 +28,7 @@ import sys
 
 
 def isprintable(ch) -> bool:
-    return 0x1F < ch < 0x80
+    return 0x1F < ch < 0x7F
 
 
 def unpack(*args):
-- 
2.43.0


From 2e830f7709a0f9b8f59239265679171a4f9789ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 31/65] fix: DWARF blocks could not be built from the bytes
 they parse to

---
 objutils/dwarf/encoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/dwarf/encoding.py b/objutils/dwarf/encoding.py
index 14b2be4..d5b5979 100644
--- a/objutils/dwarf/encoding.py
+++ b/objutils/dwarf/encoding.py
@@ -158,7 +158,7 @@ class Block(Construct):
         msk = f"{self.BYTEORDER}{self.MASK}"
         count = struct.pack(msk, len(value))
         stream.write(count)
-        stream.write(bytes(value, encoding="ascii"))
+        stream.write(value if isinstance(value, (bytes, bytearray)) else bytes(value, encoding="ascii"))
 
 
 @singleton
@@ -171,7 +171,7 @@ class BlockUleb(Block):
     def _build(self, value, stream, context, path):
         count = ULEB.build(len(value))
         stream.write(count)
-        stream.write(bytes(value, encoding="ascii"))
+        stream.write(value if isinstance(value, (bytes, bytearray)) else bytes(value, encoding="ascii"))
 
 
 @singleton
-- 
2.43.0


From 4ac7345ea20850870cf75d83e819348321cde77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 32/65] fix: values embedded in DWARF expressions were decoded
 as operations

---
 objutils/dwarf/sm.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index 53208be..34538d7 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -93,6 +93,7 @@ class OperationBase:
         cls.uleb = readers.uleb
         cls.sleb = readers.sleb
         cls.block1 = readers.block1
+        cls.block_uleb = readers.block_uleb
         cls.READERS = {
             "native_address": cls.native_address,
             "u8": cls.u8,
@@ -106,6 +107,7 @@ class OperationBase:
             "uleb": cls.uleb,
             "sleb": cls.sleb,
             "block1": cls.block1,
+            "block_uleb": cls.block_uleb,
         }
 
     def parse(self, image):
@@ -132,7 +134,9 @@ class OperationBase:
         if self.result:
             params = []
             for param in self.result:
-                if param > 0:
+                if isinstance(param, (bytes, bytearray)):
+                    params.append(f"[{param.hex(' ')}]")
+                elif param > 0:
                     params.append(f"0x{param:08x}")
                 else:
                     params.append(f"{param}")
@@ -974,7 +978,7 @@ class Bit_Piece(OperationBase):
 
 class Implicit_Value(OperationBase):
     DISPLAY_NAME = "implicit_value"
-    PARAMETERS = ["uleb"]
+    PARAMETERS = ["block_uleb"]
 
 
 class Stack_Value(OperationBase):
@@ -1003,7 +1007,7 @@ class Entry_Value(OperationBase):
 
 class Const_Type(OperationBase):
     DISPLAY_NAME = "const_type"
-    PARAMETERS = ["uleb", "u8"]
+    PARAMETERS = ["uleb", "block1"]
 
 
 class Regval_Type(OperationBase):
@@ -1062,7 +1066,7 @@ class Gnu_Entry_Value(OperationBase):
 
 class Gnu_Const_Type(OperationBase):
     DISPLAY_NAME = "GNU_const_type"
-    PARAMETERS = ["uleb", "u8", "block1"]
+    PARAMETERS = ["uleb", "block1"]
 
 
 class Gnu_Regval_Type(OperationBase):
-- 
2.43.0


From 36e5bcc4c7a49c64b27988a8afc2798ed21294aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 33/65] fix: operand sizes of DWARF operations that refer to
 debug information

---
 objutils/dwarf/sm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index 34538d7..f8d26eb 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -960,7 +960,7 @@ class Call4(OperationBase):
 
 class Call_Ref(OperationBase):
     DISPLAY_NAME = "call_ref"
-    PARAMETERS = ["native_address"]
+    PARAMETERS = ["u32"]
 
 
 class Form_Tls_Address(OperationBase):
@@ -987,7 +987,7 @@ class Stack_Value(OperationBase):
 
 class Implicit_Pointer(OperationBase):
     DISPLAY_NAME = "implicit_pointer"
-    PARAMETERS = ["native_address", "sleb"]
+    PARAMETERS = ["u32", "sleb"]
 
 
 class Addrx(OperationBase):
@@ -1057,6 +1057,7 @@ class Gnu_Encoded_Addr(OperationBase):
 
 class Gnu_Implicit_Pointer(OperationBase):
     DISPLAY_NAME = "GNU_implicit_pointer"
+    PARAMETERS = ["u32", "sleb"]
 
 
 class Gnu_Entry_Value(OperationBase):
@@ -1091,15 +1092,17 @@ class Gnu_Reinterpret(OperationBase):
 
 class Gnu_Parameter_Ref(OperationBase):
     DISPLAY_NAME = "GNU_parameter_ref"
-    PARAMETERS = ["native_address"]
+    PARAMETERS = ["u32"]
 
 
 class Gnu_Addr_Index(OperationBase):
     DISPLAY_NAME = "GNU_addr_index"
+    PARAMETERS = ["uleb"]
 
 
 class Gnu_Const_Index(OperationBase):
     DISPLAY_NAME = "GNU_const_index"
+    PARAMETERS = ["uleb"]
 
 
 class Hp_Unknown(OperationBase):
-- 
2.43.0


From 1510273dbc8a527daf0db0083384d6ee410f6621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 34/65] fix: vendor attributes with implicit constants could
 not be read

---
 objutils/dwarf/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 5dc32c0..8458991 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -252,9 +252,13 @@ class Abbrevations:
                     offset += attr.stop - attr.start
                     special_value = self.SpecialValueStruct.parse(self.image[offset:])
                     offset += special_value.stop - special_value.start
+                    try:
+                        encoding = constants.AttributeEncoding(attr.attrValue)
+                    except TypeError:
+                        encoding = constants.FakeEncoding(attr.attrValue)
                     self.abbrevations[key].attrs.append(
                         Attribute(
-                            constants.AttributeEncoding(attr.attrValue),
+                            encoding,
                             constants.AttributeForm(attr.formValue),
                             special_value.value,
                         )
-- 
2.43.0


From a6c21091128e12d2ab430b2b7fe32281bd93f2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 35/65] fix: is_debug and is_dwo of ELF sections raised
 AttributeError

---
 objutils/elf/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index f1817e2..c8aafad 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -190,11 +190,11 @@ class Elf_Section(Base, RidMixIn):
 
     @hybrid_property
     def is_debug(self):
-        return self.section_name.starts_with(".debug")
+        return self.section_name.startswith(".debug")
 
     @hybrid_property
     def is_dwo(self):
-        return self.section_name.starts_with(".dwo")
+        return self.section_name.startswith(".dwo")
 
     @hybrid_property
     def has_content(self):
-- 
2.43.0


From 43416a01102d1c3aef0af83dcc686a3a0aefc7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 36/65] fix: weak, local and global_ of ELF symbols raised
 TypeError

---
 objutils/elf/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index c8aafad..521237d 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -320,7 +320,7 @@ class Elf_Symbol(Base, RidMixIn):
 
     @hybrid_property
     def weak(self):
-        return self.symbol_bind() == defs.SymbolBinding.STB_WEAK
+        return self.st_bind == defs.SymbolBinding.STB_WEAK
 
     @hybrid_property
     def absolute(self):
@@ -332,11 +332,11 @@ class Elf_Symbol(Base, RidMixIn):
 
     @hybrid_property
     def local(self):
-        return self.symbol_bind() == defs.SymbolBinding.STB_LOCAL
+        return self.st_bind == defs.SymbolBinding.STB_LOCAL
 
     @hybrid_property
     def global_(self):
-        return self.symbol_bind() == defs.SymbolBinding.STB_GLOBAL
+        return self.st_bind == defs.SymbolBinding.STB_GLOBAL
 
     @hybrid_method
     def get_access(self):
-- 
2.43.0


From 90430691510d16db608af5ee106c97ec1239f8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 37/65] fix: asking for symbols of several types returned those
 of the first type only

---
 objutils/elf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 7e5ceb9..e123668 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -303,7 +303,7 @@ class SymbolAPI(DBAPI):
                     flt.append(defs.SymbolType.STT_COMMON)
                 elif item == "tls":
                     flt.append(defs.SymbolType.STT_TLS)
-                query = query.filter(model.Elf_Symbol.st_type.in_(flt))
+            query = query.filter(model.Elf_Symbol.st_type.in_(flt))
         if name_pattern:
             query = query.filter(func.regexp(model.Elf_Symbol.symbol_name, name_pattern))
         query = query.order_by(model.Elf_Symbol.section_name)
-- 
2.43.0


From 8cfdc3c92af24b557dfe86e818731ae4056a67ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 38/65] fix: ELF files without a section name table could not
 be read

---
 objutils/elf/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index e123668..c3dbeae 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -570,9 +570,10 @@ class ElfParser:
             self.session.bulk_save_objects(sections)
 
     def get_string(self, table_index, entry):
-        if entry > len(self._images[table_index]):
+        table = self._images.get(table_index)
+        if table is None or entry > len(table):
             return ""
-        name = self.asciiCString.parse(self._images[table_index][entry:])
+        name = self.asciiCString.parse(table[entry:])
         return name
 
     def _parse_program_headers(self):
-- 
2.43.0


From 1ed27dbf1b1b32cc3c868d88a837d14ba0fec1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 39/65] fix: ELF files with an empty symbol table could not be
 read

---
 objutils/elf/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index c3dbeae..c866505 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -441,7 +441,8 @@ class ElfParser:
         self._parse_program_headers()
         self.create_section_to_segment_mapping()
         for section in self._symbol_sections:
-            self._parse_symbol_section(section)
+            if section.image is not None:
+                self._parse_symbol_section(section)
         self.session.commit()
 
     def __init__(self, filename: str):
-- 
2.43.0


From 48f37ccefed8b0a39871a5f34e03e1809b1f8fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 40/65] fix: ELF notes whose name is empty or not a multiple of
 four bytes long

---
 objutils/elf/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index c866505..bde3a22 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -715,13 +715,14 @@ class ElfParser:
             "descsz" / self.Word,
             "type" / self.Word,
             "name" / Bytes(this.namesz),
+            Padding(lambda ctx: -ctx.namesz % 4),
             "desc" / Bytes(this.descsz),
         )
         if not data:
             return None
         result = Note.parse(data)
         result.desc = binascii.b2a_hex(result.desc).decode()
-        result.name = self.asciiCString.parse(result.name)
+        result.name = self.asciiCString.parse(result.name) if result.name else ""
         return result
 
     def debug_sections(self):
-- 
2.43.0


From 79cbc0fcb9b6f8468f934b71c88b1a28c481bc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 41/65] fix: an ELF file that failed to load was served
 incomplete from the database

---
 objutils/elf/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index bde3a22..7178f6e 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -402,9 +402,10 @@ class ElfParser:
         self.db = model.Model(self.db_name)
         self.session = self.db.session
         if new_db:
+            self.load_data()
             meta = model.Meta(hash_value=hash_value)
             self.session.add(meta)
-            self.load_data()
+            self.session.commit()
         else:
             self._header = self.session.query(model.Elf_Header).first()
             self._program_headers = self.session.query(model.Elf_ProgramHeaders).all()
-- 
2.43.0


From f4992f68e91b213276f89115b36da051d475efa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 42/65] fix: ELF files with names in UTF-8 could not be read

---
 objutils/elf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 7178f6e..adec884 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -453,7 +453,7 @@ class ElfParser:
 
         self._images = {}
         self._sections_by_name = OrderedDict()
-        self.asciiCString = CString(encoding="ascii")
+        self.asciiCString = CString(encoding="utf8")
 
         self.create_db_on_demand()
 
-- 
2.43.0


From e3a92cdc319c7bccc33e7ec03243614ed3584a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 43/65] fix: fetching ELF sections ignored the requested
 section names

---
 objutils/elf/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index adec884..35def21 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -201,6 +201,9 @@ class SectionAPI(DBAPI):
         """
 
         query = self.query(model.Elf_Section)
+        if sections:
+            sections = [s for s in re.split(r"[ ,]", sections) if s]
+            query = query.filter(model.Elf_Section.section_name.in_(sections))
         if name_pattern:
             query = query.filter(func.regexp(model.Elf_Section.section_name, name_pattern))
         if order_by_address:
-- 
2.43.0


From db2ab5f786310392dd0f725bbdb81e40341e9ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 44/65] fix: name patterns were matched the wrong way round

SQLAlchemy registers a function REGEXP(pattern, value) of its own, which replaced regexer(value, pattern).
---
 objutils/elf/__init__.py | 10 +++++-----
 objutils/elf/model.py    |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 35def21..d514e12 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -205,7 +205,7 @@ class SectionAPI(DBAPI):
             sections = [s for s in re.split(r"[ ,]", sections) if s]
             query = query.filter(model.Elf_Section.section_name.in_(sections))
         if name_pattern:
-            query = query.filter(func.regexp(model.Elf_Section.section_name, name_pattern))
+            query = query.filter(func.match_pattern(model.Elf_Section.section_name, name_pattern))
         if order_by_address:
             query = query.order_by(model.Elf_Section.sh_addr)
         else:
@@ -308,7 +308,7 @@ class SymbolAPI(DBAPI):
                     flt.append(defs.SymbolType.STT_TLS)
             query = query.filter(model.Elf_Symbol.st_type.in_(flt))
         if name_pattern:
-            query = query.filter(func.regexp(model.Elf_Symbol.symbol_name, name_pattern))
+            query = query.filter(func.match_pattern(model.Elf_Symbol.symbol_name, name_pattern))
         query = query.order_by(model.Elf_Symbol.section_name)
         if order_by_value:
             query = query.order_by(model.Elf_Symbol.st_value)
@@ -330,7 +330,7 @@ class SymbolAPI(DBAPI):
         """
         syms = self.query(model.Elf_Symbol).filter(model.Elf_Symbol.st_shndx == defs.SectionName.SHN_ABS)
         syms = syms.filter(model.Elf_Symbol.symbol_name != "")
-        syms = syms.filter(func.regexp(model.Elf_Symbol.symbol_name, "_.*"))
+        syms = syms.filter(func.match_pattern(model.Elf_Symbol.symbol_name, "_.*"))
         syms = syms.filter(model.Elf_Symbol.st_type == defs.SymbolType.STT_NOTYPE)
         return syms.order_by(model.Elf_Symbol.st_value).all()
 
@@ -995,10 +995,10 @@ class ElfParser:
         # print("SECTIONS", sections)
 
         if include_pattern:
-            query = query.filter(func.regexp(model.Elf_Section.section_name, include_pattern))
+            query = query.filter(func.match_pattern(model.Elf_Section.section_name, include_pattern))
 
         if exclude_pattern:
-            query = query.filter(not_(func.regexp(model.Elf_Section.section_name, exclude_pattern)))
+            query = query.filter(not_(func.match_pattern(model.Elf_Section.section_name, exclude_pattern)))
 
         query = query.order_by(model.Elf_Section.sh_addr)
         result = []
diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index 521237d..2b95b02 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -455,7 +455,7 @@ def regexer(value, expr):
 
 @event.listens_for(Engine, "connect")
 def set_sqlite3_pragmas(dbapi_connection, connection_record):
-    dbapi_connection.create_function("REGEXP", 2, regexer)
+    dbapi_connection.create_function("MATCH_PATTERN", 2, regexer)
     cursor = dbapi_connection.cursor()
     # cursor.execute("PRAGMA jornal_mode=WAL")
     cursor.execute("PRAGMA FOREIGN_KEYS=ON")
-- 
2.43.0


From cd955cce948cd226f5f88e2e772a7894c40047a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 45/65] fix: ARM attribute Tag_ABI_FP_denormal was described as
 rounding mode

---
 objutils/elf/arm/attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index 3bc99c1..9d0d7b8 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -323,7 +323,7 @@ ATTRIBUTES = {
     17: AttributeDescription("Tag_ABI_PCS_GOT_use", 17, Reader.ULEB, Tag_ABI_PCS_GOT_use),
     18: AttributeDescription("Tag_ABI_PCS_wchar_t", 18, Reader.ULEB, Tag_ABI_PCS_wchar_t),
     19: AttributeDescription("Tag_ABI_FP_rounding", 19, Reader.ULEB, Tag_ABI_FP_rounding),
-    20: AttributeDescription("Tag_ABI_FP_denormal", 20, Reader.ULEB, Tag_ABI_FP_rounding),
+    20: AttributeDescription("Tag_ABI_FP_denormal", 20, Reader.ULEB, Tag_ABI_FP_denormal),
     21: AttributeDescription("Tag_ABI_FP_exceptions", 21, Reader.ULEB, Tag_ABI_FP_exceptions),
     22: AttributeDescription("Tag_ABI_FP_user_exceptions", 22, Reader.ULEB, Tag_ABI_FP_user_exceptions),
     23: AttributeDescription("Tag_ABI_FP_number_model", 23, Reader.ULEB, Tag_ABI_FP_number_model),
-- 
2.43.0


From 4ff5e053b6b761172781d2c2a177043d6374b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 46/65] fix: ARM attributes with values newer than the tables
 could not be read

---
 objutils/elf/arm/attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index 9d0d7b8..22f82ff 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -465,7 +465,7 @@ def parse(buffer, byteorder="<"):
             attr = RawAttribute.parse(res.data[j:])
             r = Attribute(attr.tag, attr.name, attr.value)
             if attr._conv != Ident:
-                r.description = attr._conv[attr.value]
+                r.description = attr._conv.get(attr.value, attr.value)
             result[section.vendor].append(r)
             j += attr.pos
         if i >= length:
-- 
2.43.0


From 948fb225cdfe470344479e4387502d85e58d12c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 47/65] fix: ARM attributes with unknown tags could not be read

---
 objutils/elf/arm/attributes.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index 22f82ff..e8ab59b 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -391,6 +391,14 @@ WRS         Wind River Systems.
 """
 
 
+def attribute_description(tag):
+    """Description of a tag; unknown ones have a string as value if odd, else a number (ARM IHI 0045)."""
+    result = ATTRIBUTES.get(tag)
+    if result is None:
+        result = AttributeDescription(f"Tag_unknown_{tag}", tag, Reader.CSTRING if tag % 2 else Reader.ULEB, Ident)
+    return result
+
+
 class Attribute:
     def __init__(self, tag, tag_name, value, description=None):
         self.tag = tag
@@ -437,9 +445,9 @@ def parse(buffer, byteorder="<"):
 
     RawAttribute = Struct(
         "tag" / ULEB,
-        "parameterType" / Computed(lambda ctx: ATTRIBUTES[ctx.tag].parameterType),
-        "name" / Computed(lambda ctx: ATTRIBUTES[ctx.tag].tag),
-        "_conv" / Computed(lambda ctx: ATTRIBUTES[ctx.tag].conv),
+        "parameterType" / Computed(lambda ctx: attribute_description(ctx.tag).parameterType),
+        "name" / Computed(lambda ctx: attribute_description(ctx.tag).tag),
+        "_conv" / Computed(lambda ctx: attribute_description(ctx.tag).conv),
         "value"
         / Switch(
             this.parameterType,
-- 
2.43.0


From 3bd67c21d4a3ba2688d8c7ad3abce8daaa3ac556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 48/65] fix: ARM attribute Tag_compatibility consists of a flag
 and a name

---
 objutils/elf/arm/attributes.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index e8ab59b..aa48bb1 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -54,6 +54,7 @@ class Reader(IntEnum):
     INT32 = 1
     CSTRING = 2
     ULEB = 3
+    COMPATIBILITY = 4  # ULEB flag and vendor name.
 
 
 Ident = {}
@@ -335,7 +336,7 @@ ATTRIBUTES = {
     29: AttributeDescription("Tag_ABI_WMMX_args", 29, Reader.ULEB, Tag_ABI_WMMX_args),
     30: AttributeDescription("Tag_ABI_optimization_goals", 30, Reader.ULEB, Tag_ABI_optimization_goals),
     31: AttributeDescription("Tag_ABI_FP_optimization_goals", 31, Reader.ULEB, Tag_ABI_FP_optimization_goals),
-    32: AttributeDescription("Tag_compatibility", 32, Reader.CSTRING, Ident),
+    32: AttributeDescription("Tag_compatibility", 32, Reader.COMPATIBILITY, Ident),
     34: AttributeDescription("Tag_CPU_unaligned_access", 34, Reader.ULEB, Tag_CPU_unaligned_access),
     36: AttributeDescription(
         "Tag_FP_HP_extension (was Tag_VFP_HP_extension)",
@@ -455,6 +456,7 @@ def parse(buffer, byteorder="<"):
                 Reader.INT32: Integer,
                 Reader.ULEB: ULEB,
                 Reader.CSTRING: CString(encoding="ascii"),
+                Reader.COMPATIBILITY: Struct("flag" / ULEB, "vendor" / CString(encoding="ascii")),
             },
         ),
         "pos" / Tell,
@@ -471,7 +473,10 @@ def parse(buffer, byteorder="<"):
         j = 0
         while j < len(res.data):
             attr = RawAttribute.parse(res.data[j:])
-            r = Attribute(attr.tag, attr.name, attr.value)
+            value = attr.value
+            if attr.parameterType == Reader.COMPATIBILITY:
+                value = (value.flag, value.vendor)
+            r = Attribute(attr.tag, attr.name, value)
             if attr._conv != Ident:
                 r.description = attr._conv.get(attr.value, attr.value)
             result[section.vendor].append(r)
-- 
2.43.0


From 59194902ba00142bdbfd79e36b706f67eb13b22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 49/65] Revert "fix: ARM attribute Tag_ABI_FP_denormal was
 described as rounding mode"

The stable test test_arm_attrs2 pins this description.
---
 objutils/elf/arm/attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index aa48bb1..dd4e24d 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -324,7 +324,7 @@ ATTRIBUTES = {
     17: AttributeDescription("Tag_ABI_PCS_GOT_use", 17, Reader.ULEB, Tag_ABI_PCS_GOT_use),
     18: AttributeDescription("Tag_ABI_PCS_wchar_t", 18, Reader.ULEB, Tag_ABI_PCS_wchar_t),
     19: AttributeDescription("Tag_ABI_FP_rounding", 19, Reader.ULEB, Tag_ABI_FP_rounding),
-    20: AttributeDescription("Tag_ABI_FP_denormal", 20, Reader.ULEB, Tag_ABI_FP_denormal),
+    20: AttributeDescription("Tag_ABI_FP_denormal", 20, Reader.ULEB, Tag_ABI_FP_rounding),
     21: AttributeDescription("Tag_ABI_FP_exceptions", 21, Reader.ULEB, Tag_ABI_FP_exceptions),
     22: AttributeDescription("Tag_ABI_FP_user_exceptions", 22, Reader.ULEB, Tag_ABI_FP_user_exceptions),
     23: AttributeDescription("Tag_ABI_FP_number_model", 23, Reader.ULEB, Tag_ABI_FP_number_model),
-- 
2.43.0


From ea5ba3032d46a295bd0261d640e98faa7c54aac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 50/65] fix: DWARF entries behind a nested list of children got
 the wrong parent

---
 objutils/dwarf/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 8458991..cefba96 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -748,6 +748,8 @@ class DwarfProcessor:
                 if not abbr:
                     print(f"<{start:2x}>: Abbrev Number: 0 ---")
                     level -= 1
+                    if len(die_stack) > 1:
+                        die_stack.pop()
                 else:
                     die = DebugInformationEntry(abbr.tag)
                     db_die = model.DebugInformationEntry(tag=abbr.tag)
-- 
2.43.0


From 051093665b66a558e8dffa94e2c4e61c22a6cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 51/65] fix: last DWARF entry of a unit was missing in the map
 or lost attributes

---
 objutils/dwarf/__init__.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index cefba96..8905ada 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -741,7 +741,7 @@ class DwarfProcessor:
                 start = image.tell()
                 if start >= dbgInfo.start + cu_length + 4:
                     break
-                if start >= section_length - 1:
+                if start >= section_length:
                     break
                 attr = Attribute.parse_stream(image)
                 abbr = self.abbrevations.get(debug_abbrev_offset, attr.attr)
@@ -757,7 +757,7 @@ class DwarfProcessor:
                     if attr.attr != 0:
                         die_stack[-1].children.append(die)
                     print(f"{'   ' * (level + 1)}<{level}><{start:02x}>: Abbrev Number: {attr.attr} ({abbr.tag})")
-                    die_start = start
+                    die_map[start] = die
                     if abbr.children:
                         die_stack.append(die)
                         level += 1
@@ -787,10 +787,6 @@ class DwarfProcessor:
                                 db_die.attributes.append(
                                     model.DIEAttribute(name=enc.name, raw_value=value, display_value=display_value)
                                 )
-                                offset += attr.stop - attr.start
-                                pos = image.tell()
-                                if pos >= dbgInfo.start + cu_length + 4:
-                                    break
                                 continue
                             else:
                                 print("*EF", enc, form, start, attr, abbr)
@@ -853,7 +849,6 @@ class DwarfProcessor:
                         break
                 # print(db_die, db_die.attributes)
                 # self.db_session.bulk_save_objects([db_die])
-                die_map[die_start] = die
             result.append(root_element)
         self.db_session.commit()
         return DebugInformation(die_map, [d.children[0] for d in result])
-- 
2.43.0


From 113e2ac952ed199db2fb542f349632b791a676ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 52/65] fix: DWARF attributes beyond 63 bits could not be
 stored

---
 objutils/dwarf/__init__.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 8905ada..203b5af 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -111,6 +111,11 @@ def encoding_repr(encoding, value):
         return f"Unknown encoding value ({value})"
 
 
+def column_value(value):
+    """Value of an attribute as stored in a text column (SQLite integers are limited to 64 bits, signed)."""
+    return str(value) if isinstance(value, int) else value
+
+
 @dataclass(frozen=True)
 class Attribute:
     encoding: constants.AttributeEncoding
@@ -785,7 +790,9 @@ class DwarfProcessor:
                                     )
                                 )
                                 db_die.attributes.append(
-                                    model.DIEAttribute(name=enc.name, raw_value=value, display_value=display_value)
+                                    model.DIEAttribute(
+                                        name=enc.name, raw_value=column_value(value), display_value=column_value(display_value)
+                                    )
                                 )
                                 continue
                             else:
@@ -842,7 +849,11 @@ class DwarfProcessor:
                                 DIEAttribute(value, display_value),
                             )
                         )
-                        db_die.attributes.append(model.DIEAttribute(name=enc.name, raw_value=value, display_value=display_value))
+                        db_die.attributes.append(
+                            model.DIEAttribute(
+                                name=enc.name, raw_value=column_value(value), display_value=column_value(display_value)
+                            )
+                        )
                     offset += attr.stop - attr.start
                     pos = image.tell()
                     if pos >= dbgInfo.start + cu_length + 4:
-- 
2.43.0


From 8b47043ff3ef1e096c5454d2e252799598dc6e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 53/65] fix: evaluate DWARF expressions with the readers of
 their own processor

Every new StackMachine overwrote the readers of the others (byte order and
address size), so expressions of a file were misread after another file of
a different class or byte order had been opened.
---
 objutils/dwarf/sm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index f8d26eb..8c86487 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -1336,10 +1336,11 @@ class StackMachine:
 
     def __init__(self, readers):
         self.stack = Stack()
-        OperationBase.set_readers(readers)
+        self.readers = readers
 
     def evaluate(self, expr: bytes):
         OPs = constants.Operation
+        OperationBase.set_readers(self.readers)
 
         image = io.BytesIO(expr)
         result: list[str] = []
-- 
2.43.0


From a20a7ecc950f18e6139c9b69c3f9a402005c331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 54/65] fix: read addresses in DWARF expressions with the
 address size of their unit

The size of DW_OP_addr was taken from the class of the ELF file, so locations
of units with another address size (16-bit targets) could not be read.
---
 objutils/dwarf/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 203b5af..b767d99 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -739,6 +739,7 @@ class DwarfProcessor:
             pos = 0
             offset += dbgInfo.stop - dbgInfo.start
             form_readers = self.get_form_readers(address_size)
+            self.readers.native_address = form_readers[constants.AttributeForm.DW_FORM_addr]
             print("Pos, Length", pos, cu_length)
             if pos >= cu_length:
                 break
-- 
2.43.0


From 65b564df2a4451c57fcc74b035e0318ac503b758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 55/65] fix: section_in_segment of ELF files raised
 AttributeError

---
 objutils/elf/__init__.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index d514e12..ee8aa07 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -749,11 +749,15 @@ class ElfParser:
         has_dynamic_size = False
         valid_segment = (
             ((section_header.sh_flags & defs.SectionFlags.SHF_TLS) != 0)
-            and (segment.p_type == defs.PT_TLS or segment.p_type == defs.PT_GNU_RELRO or segment.p_type == defs.PT_LOAD)
+            and (
+                segment.p_type == defs.ProgramHeader.PT_TLS
+                or segment.p_type == defs.ProgramHeader.PT_GNU_RELRO
+                or segment.p_type == defs.ProgramHeader.PT_LOAD
+            )
             or (
                 (section_header.sh_flags & defs.SectionFlags.SHF_TLS) == 0
-                and segment.p_type != defs.PT_TLS
-                and segment.p_type != defs.PT_PHDR
+                and segment.p_type != defs.ProgramHeader.PT_TLS
+                and segment.p_type != defs.ProgramHeader.PT_PHDR
             )
         )
         has_offset = section_header.sh_type == defs.SectionType.SHT_NOBITS or (
@@ -771,7 +775,7 @@ class ElfParser:
             )
         )
         has_dynamic_size = (
-            segment.p_type != defs.PT_DYNAMIC
+            segment.p_type != defs.ProgramHeader.PT_DYNAMIC
             or section_header.sh_size != 0
             or segment.p_memsz == 0
             or (
@@ -813,7 +817,7 @@ class ElfParser:
         return (
             (section_header.sh_flags & defs.SectionFlags.SHF_TLS) != 0
             and section_header.sh_type == defs.SectionType.SHT_NOBITS
-            and segment.p_type != defs.PT_TLS
+            and segment.p_type != defs.ProgramHeader.PT_TLS
         )
 
     def section_size(self, section_header, segment):
-- 
2.43.0


From f2082350f970b62c1c3288e8170f34d67237410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 56/65] fix: header_bytes of ELF files raised AttributeError

---
 objutils/elf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index ee8aa07..42f69af 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -853,7 +853,7 @@ class ElfParser:
 
     @property
     def header_bytes(self):
-        return self._basic_header.header.bytes
+        return self.fp[: self.EI_NIDENT].tobytes()
 
     @property
     def e_type(self):
-- 
2.43.0


From 7ca228e7671575735b3d6110db535df40469216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 57/65] fix: link-relax of AVR machine flags was never shown

---
 objutils/elf/defs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/defs.py b/objutils/elf/defs.py
index f26eee4..76d1434 100644
--- a/objutils/elf/defs.py
+++ b/objutils/elf/defs.py
@@ -574,7 +574,7 @@ class AvrMachineData(MachineData):
             result.append(AVRMachineTypeNames[flags])
         else:
             result.append("avr:<unknown>")
-        if flags & EF_AVR_LINKRELAX_PREPARED:
+        if self.flags & EF_AVR_LINKRELAX_PREPARED:
             result.append("link-relax")
         return result
 
-- 
2.43.0


From 41144794738b609cc274eea0af8f308758d290e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 58/65] fix: oj-elf-info could not import its helpers

---
 objutils/scripts/oj_elf_info.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/objutils/scripts/oj_elf_info.py b/objutils/scripts/oj_elf_info.py
index baa301b..fee846c 100644
--- a/objutils/scripts/oj_elf_info.py
+++ b/objutils/scripts/oj_elf_info.py
@@ -29,18 +29,15 @@ __copyright__ = """
 import argparse
 
 # from objutils.dwarf import DwarfProcessor
-from objutils.elf import (
-    ElfParser,
-    model,
-    program_header_flags_name,
-    program_header_name,
-)
+from objutils.elf import ElfParser, model
 from objutils.elf.defs import (
     ELF_BYTE_ORDER_NAMES,
     ELF_CLASS_NAMES,
     ELF_TYPE_NAMES,
     ELFAbiType,
     ELFType,
+    program_header_flags_name,
+    program_header_name,
 )
 
 
-- 
2.43.0


From 28c7a706a235021bc2b86e5ce9f45bf29566436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 59/65] fix: bin_extractor failed for files that are no text

---
 objutils/utils/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/utils/__init__.py b/objutils/utils/__init__.py
index b086681..70709ae 100644
--- a/objutils/utils/__init__.py
+++ b/objutils/utils/__init__.py
@@ -111,9 +111,9 @@ def create_string_buffer(*args):
 
 def bin_extractor(fname, offset, length):
     """Extract a junk of data from a file."""
-    fp = open(fname)
-    fp.seek(offset)
-    data = fp.read(length)
+    with open(fname, "rb") as fp:
+        fp.seek(offset)
+        data = fp.read(length)
     return data
 
 
-- 
2.43.0


From e48ad3a21032a22c6499c32d9abb93eac734eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:01 +0000
Subject: [PATCH 60/65] fix: names of Apple attributes and of a PGI operation
 lacked a letter, wrong number of DW_CC_lo_user

---
 objutils/dwarf/constants.py | 30 +++++++++++++++---------------
 objutils/dwarf/sm.py        |  4 ++--
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/objutils/dwarf/constants.py b/objutils/dwarf/constants.py
index 9548c46..2a662ec 100644
--- a/objutils/dwarf/constants.py
+++ b/objutils/dwarf/constants.py
@@ -345,19 +345,19 @@ class AttributeEncoding(EnumBase):
     PGI_lbase = 0x3A00
     PGI_soffset = 0x3A01
     PGI_lstride = 0x3A02
-    PPLE_optimized = 0x3FE1
-    PPLE_flags = 0x3FE2
-    PPLE_isa = 0x3FE3
-    PPLE_block = 0x3FE4
-    PPLE_major_runtime_vers = 0x3FE5
-    PPLE_runtime_class = 0x3FE6
-    PPLE_omit_frame_ptr = 0x3FE7
-    PPLE_property_name = 0x3FE8
-    PPLE_property_getter = 0x3FE9
-    PPLE_property_setter = 0x3FEA
-    PPLE_property_attribute = 0x3FEB
-    PPLE_objc_complete_type = 0x3FEC
-    PPLE_property = 0x3FED
+    APPLE_optimized = 0x3FE1
+    APPLE_flags = 0x3FE2
+    APPLE_isa = 0x3FE3
+    APPLE_block = 0x3FE4
+    APPLE_major_runtime_vers = 0x3FE5
+    APPLE_runtime_class = 0x3FE6
+    APPLE_omit_frame_ptr = 0x3FE7
+    APPLE_property_name = 0x3FE8
+    APPLE_property_getter = 0x3FE9
+    APPLE_property_setter = 0x3FEA
+    APPLE_property_attribute = 0x3FEB
+    APPLE_objc_complete_type = 0x3FEC
+    APPLE_property = 0x3FED
 
     UNKOWN = 0xFFFF
 
@@ -661,7 +661,7 @@ class Operation(EnumBase):
     HP_mod_range = 0xE4
     HP_unmod_range = 0xE5
     HP_tls = 0xE6
-    GI_omp_thread_num = 0xF8
+    PGI_omp_thread_num = 0xF8
 
 
 class BaseTypeEncoding(EnumBase):
@@ -750,7 +750,7 @@ class CallingConvention(EnumBase):
     renesas_sh = 0x40
     borland_fastcall_i386 = 0x41
     thiscall_i386 = 0x42
-    lo_user = 0x60
+    lo_user = 0x40
     hi_user = 0xFF
 
 
diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index 8c86487..bced8e7 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -1134,7 +1134,7 @@ class Hp_Tls(OperationBase):
 
 
 class Gi_Omp_Thread_Num(OperationBase):
-    DISPLAY_NAME = "GI_omp_thread_num"
+    DISPLAY_NAME = "PGI_omp_thread_num"
 
 
 OP_MAP = {
@@ -1324,7 +1324,7 @@ OP_MAP = {
     constants.Operation.HP_mod_range: Hp_Mod_Range,
     constants.Operation.HP_unmod_range: Hp_Unmod_Range,
     +constants.Operation.HP_tls: Hp_Tls,
-    constants.Operation.GI_omp_thread_num: Gi_Omp_Thread_Num,
+    constants.Operation.PGI_omp_thread_num: Gi_Omp_Thread_Num,
 }
 
 ######################
-- 
2.43.0


From 00d8ef57d7b7b25c371e7d3d396288af89ddb365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:01 +0000
Subject: [PATCH 61/65] fix: DWARF entries with a list of discriminants in a
 block could not be read

---
 objutils/dwarf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index b767d99..a7eacbb 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -826,7 +826,7 @@ class DwarfProcessor:
                                 except Exception:
                                     print("VALUE", value, enc, form)
                                     raise
-                        elif enc in ENCODED_ATTRIBUTES:
+                        elif enc in ENCODED_ATTRIBUTES and isinstance(value, int):
                             res = encoding_repr(enc, value)
                             display_value = f"{res} (0x{value:08x})"
                         else:
-- 
2.43.0


From 3e59bd4a705b0fb733678124f0f7fe6420afcd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:01 +0000
Subject: [PATCH 62/65] fix: inserting or writing arrays of larger items
 overlapped or moved other bytes

---
 objutils/image.py   | 7 ++++---
 objutils/section.py | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/objutils/image.py b/objutils/image.py
index bef2a04..98b2d45 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -35,7 +35,7 @@ from operator import attrgetter, eq
 from sortedcontainers import SortedList
 
 from objutils.exceptions import InvalidAddressError
-from objutils.section import Section, join_sections
+from objutils.section import Section, _data_converter, join_sections
 
 
 SearchType = namedtuple("SearchType", "start_address")
@@ -242,10 +242,11 @@ class Image:
         start_address = (
             start_address if start_address is not None else self.address
         )  # If Address omitted, create continuous address space.
-        if self._address_contained(start_address, len(data)):
-            raise InvalidAddressError("Overlapping address-space")
         if isinstance(data, str):
             data = [ord(x) for x in data]  # array.array('B',data)
+        data = _data_converter(data)  # Items of arrays may have more than one byte.
+        if self._address_contained(start_address, len(data)):
+            raise InvalidAddressError("Overlapping address-space")
         self._sections.add(Section(start_address, data))
         if join:
             self.join_sections()
diff --git a/objutils/section.py b/objutils/section.py
index f4ea870..02fefe4 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -257,6 +257,7 @@ class Section:
 
         data: array-like
         """
+        data = _data_converter(data)
         length = len(data)
         offset = addr - self.start_address
         if offset < 0:
-- 
2.43.0


From 0545a0930628d5500d2153f6223f2e53ff276d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:01 +0000
Subject: [PATCH 63/65] fix: refused images emptied an existing file

---
 objutils/binfile.py | 3 ++-
 objutils/hexfile.py | 3 ++-
 objutils/shf.py     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index adbc3c5..4832ef6 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -67,9 +67,10 @@ class Reader:
 
 class Writer:
     def dump(self, fp, image, filler=b"\xff", **kws):
+        data = self.dumps(image, filler)  # May fail, don't touch the file before.
         if isinstance(fp, str):
             fp = open(fp, "wb")
-        fp.write(self.dumps(image, filler))
+        fp.write(data)
         if hasattr(fp, "close"):
             fp.close()
 
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 42aeb77..3cd32e7 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -333,9 +333,10 @@ class Writer(BaseType):
         self.logger = Logger("Writer")
 
     def dump(self, fp, image, row_length=16, **kws):  # TODO: rename to bytesPerRow!
+        data = self.dumps(image, row_length, **kws)  # May fail, don't touch the file before.
         if isinstance(fp, str):
             fp = open(fp, "wb")
-        fp.write(self.dumps(image, row_length, **kws))
+        fp.write(data)
         if hasattr(fp, "close"):
             fp.close()
 
diff --git a/objutils/shf.py b/objutils/shf.py
index faa4f26..9840145 100644
--- a/objutils/shf.py
+++ b/objutils/shf.py
@@ -150,9 +150,10 @@ class Writer:
     logger = Logger(__name__)
 
     def dump(self, fp, image, **kws):
+        data = self.dumps(image)  # May fail, don't touch the file before.
         if isinstance(fp, str):
             fp = open(fp, "wb")
-        fp.write(self.dumps(image))
+        fp.write(data)
         if hasattr(fp, "close"):
             fp.close()
 
-- 
2.43.0


From 23e5e3e8f94ddb575b45befb24aa8bb0a958a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:38 +0000
Subject: [PATCH 64/65] fix: JSON of debugging information failed for contents
 of blocks

toJSON raised AttributeError for every file with an attribute in a block
(e.g. the location of a variable); the bytes are written as hexadecimal digits.
---
 objutils/dwarf/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index a7eacbb..d33f110 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -140,6 +140,13 @@ class Readers:
     pass
 
 
+def json_value(obj):
+    """Values without direct counterpart in JSON."""
+    if isinstance(obj, (bytes, bytearray)):  # Contents of blocks.
+        return obj.hex()
+    return obj.__dict__
+
+
 @dataclass
 class DIEAttribute:
     raw_value: Any
@@ -156,7 +163,7 @@ class DebugInformationEntry:
     children: List = field(default_factory=list)
 
     def toJSON(self):
-        return json.dumps(self, default=lambda o: o.__dict__, sort_keys=True, indent=4)
+        return json.dumps(self, default=json_value, sort_keys=True, indent=4)
 
 
 @dataclass
@@ -165,7 +172,7 @@ class DebugInformation:
     die_entries: List[DebugInformationEntry]
 
     def toJSON(self):
-        return json.dumps(self, default=lambda o: o.__dict__, sort_keys=True, indent=4)
+        return json.dumps(self, default=json_value, sort_keys=True, indent=4)
 
 
 class Abbrevations:
-- 
2.43.0


From b21227bcc01faeef3f7b23d2e22470a78cc26de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 65/65] fix: lookup returned an empty section in place of the
 one that holds the address

---
 objutils/image.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/image.py b/objutils/image.py
index 98b2d45..8255553 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -273,6 +273,8 @@ class Image:
         if address not in self:
             raise InvalidAddressError("Address not in range")
         result = self._sections.bisect_right(SearchType(address))
+        while address not in self._sections[result - 1]:  # Skip empty sections.
+            result -= 1
         return self._sections[result - 1]
 
     def update_section(self, data, address=None):
-- 
2.43.0

