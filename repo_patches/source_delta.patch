From ed26e642394b14bd312da65911f46d73bda36314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:10 +0000
Subject: [PATCH 01/25] fix: accept every escaped character in alphanumeric
 components

Escapes such as %2F or %3C were only recognised when a plain character
preceded them, and incomplete escapes such as %2! slipped through.
---
 epcpy/utils/common.py | 2 +-
 epcpy/utils/regex.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index b2e0260..d5f53e6 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -506,7 +506,7 @@ def verify_gs3a3_component(gs3a3_component: str):
         ConvertException: Component not valid
     """
     res = ""
-    for g in re.split("(%\d\d)", gs3a3_component):
+    for g in re.split("(%[0-9a-fA-F]{2})", gs3a3_component):
         if len(g) == 0:
             continue
         elif g[0] != "%":
diff --git a/epcpy/utils/regex.py b/epcpy/utils/regex.py
index cda91f4..8b415cc 100644
--- a/epcpy/utils/regex.py
+++ b/epcpy/utils/regex.py
@@ -1,7 +1,7 @@
 # Generic
 CPREF_COMPONENT = "([0-9A-Z-]|%2F|%23)+"
 NUMERIC_COMPONENT = "(0|[1-9]\d*)"
-GS3A3_CHAR = "((%[0-9a-fA-F])|([a-zA-Z0-9!'()*+,-.:;=_]))"
+GS3A3_CHAR = "((%[0-9a-fA-F]{2})|([a-zA-Z0-9!'()*+,-.:;=_]))"
 GS3A3_COMPONENT = f"{GS3A3_CHAR}+"
 PADDED_NUMERIC_COMPONENT = "\d+"
 PADDED_NUMERIC_COMPONENT_OR_EMPTY = "\d*"
-- 
2.43.0


From 7ff3d707c796730a1e9b5cec054c5072bcb5d709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:12 +0000
Subject: [PATCH 02/25] fix: resolve lower case and other accepted escapes in
 element strings

URIs containing %2f or %41 are accepted and encoded as the character they
denote, but element strings, keys and length checks kept the raw escape.
---
 epcpy/utils/common.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index d5f53e6..85466b8 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -37,15 +37,7 @@ def replace_uri_escapes(uri: str) -> str:
     Returns:
         str: Escaped URI string
     """
-    return (
-        uri.replace("%22", '"')
-        .replace("%26", "&")
-        .replace("%2F", "/")
-        .replace("%3C", "<")
-        .replace("%3E", ">")
-        .replace("%3F", "?")
-        .replace("%25", "%")
-    )
+    return re.sub("%([0-9a-fA-F]{2})", lambda m: chr(int(m.group(1), 16)), uri)
 
 
 def revert_uri_escapes(uri: str) -> str:
-- 
2.43.0


From b58cebbca247930754408226041c74e755aaa0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:16 +0000
Subject: [PATCH 03/25] fix: keep colons in GIAI asset references

Everything after a colon in the asset reference was dropped from the key,
element string, tag URI and tag bits.
---
 epcpy/epc_schemes/giai.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 0e7dc5f..98fedf8 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -194,7 +194,7 @@ class GIAI(TagEncodable, GS1Keyed):
         if not GIAI_URI_REGEX.fullmatch(epc_uri):
             raise ConvertException(message=f"Invalid GIAI URI {epc_uri}")
 
-        company_prefix, *asset_reference = epc_uri.split(":")[4].split(".")
+        company_prefix, *asset_reference = ":".join(epc_uri.split(":")[4:]).split(".")
         asset_reference = ".".join(asset_reference)
 
         if (
-- 
2.43.0


From fbacb98433a37bd9d2bb128ac2ea8f409909a214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:19 +0000
Subject: [PATCH 04/25] fix: count characters, not escapes, in length limits

GDTI, GRAI, GIAI and CPI rejected valid values because each escaped
character was counted as three.
---
 epcpy/epc_schemes/cpi.py  | 2 +-
 epcpy/epc_schemes/gdti.py | 2 +-
 epcpy/epc_schemes/giai.py | 2 +-
 epcpy/epc_schemes/grai.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index a381313..baab3e0 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -211,7 +211,7 @@ class CPI(GS1Element, TagEncodable):
         )
 
         if (
-            len("".join([self._company_pref, self._cp_ref])) > 30
+            len("".join([self._company_pref, replace_cpi_escapes(self._cp_ref)])) > 30
             or len(self._serial) > 12
             or not (6 <= len(self._company_pref) <= 12)
         ):
diff --git a/epcpy/epc_schemes/gdti.py b/epcpy/epc_schemes/gdti.py
index 218df08..f927ea9 100644
--- a/epcpy/epc_schemes/gdti.py
+++ b/epcpy/epc_schemes/gdti.py
@@ -142,7 +142,7 @@ class GDTI(TagEncodable, GS1Keyed):
 
         if (
             len(f"{self._company_pref}{self._doc_type}") != 12
-            or len(self._serial) > 17
+            or len(replace_uri_escapes(self._serial)) > 17
             or not (6 <= len(self._company_pref) <= 12)
         ):
             raise ConvertException(
diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 98fedf8..a40f18c 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -199,7 +199,7 @@ class GIAI(TagEncodable, GS1Keyed):
 
         if (
             not (6 <= len(company_prefix) <= 12)
-            or len(f"{company_prefix}{asset_reference}") > 30
+            or len(f"{company_prefix}{replace_uri_escapes(asset_reference)}") > 30
         ):
             raise ConvertException(
                 message=f"Invalid company prefix length {len(company_prefix)}"
diff --git a/epcpy/epc_schemes/grai.py b/epcpy/epc_schemes/grai.py
index 7b24302..3622695 100644
--- a/epcpy/epc_schemes/grai.py
+++ b/epcpy/epc_schemes/grai.py
@@ -143,7 +143,7 @@ class GRAI(TagEncodable, GS1Keyed):
         if (
             len(f"{self._company_pref}{self._asset_type}") != 12
             or not (6 <= len(self._company_pref) <= 12)
-            or len(self._serial) > 16
+            or len(replace_uri_escapes(self._serial)) > 16
         ):
             raise ConvertException(message=f"Invalid EPC URI {epc_uri}")
 
-- 
2.43.0


From 3d279584735572d2af3181a12ec5c81a8a238626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:22 +0000
Subject: [PATCH 05/25] fix: check the company prefix length of UPUI identities

Prefixes of other than 6 to 12 digits were accepted, and a 13 digit prefix
made the element string conversion fail with an IndexError.
---
 epcpy/epc_schemes/upui.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/upui.py b/epcpy/epc_schemes/upui.py
index 1578323..de71fd7 100644
--- a/epcpy/epc_schemes/upui.py
+++ b/epcpy/epc_schemes/upui.py
@@ -50,7 +50,9 @@ class UPUI(GS1Element):
         if not (1 <= len(self._tpx) <= 28):
             raise ConvertException(message=f"Incorrect TPX size")
 
-        if len(f"{self._company_pref}{self._item_ref}") != 13:
+        if len(f"{self._company_pref}{self._item_ref}") != 13 or not (
+            6 <= len(self._company_pref) <= 12
+        ):
             raise ConvertException(
                 message=f"Wrong company prefix + item ref size (!=13)"
             )
-- 
2.43.0


From 5c2402e5237e0892688036c4cb3938911292fb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:24 +0000
Subject: [PATCH 06/25] fix: check the length of each ITIP component

Only the sum of the lengths was checked, so that e.g. a one digit piece
with a three digit total was accepted.
---
 epcpy/epc_schemes/itip.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/itip.py b/epcpy/epc_schemes/itip.py
index 075ba55..034a5f7 100644
--- a/epcpy/epc_schemes/itip.py
+++ b/epcpy/epc_schemes/itip.py
@@ -148,7 +148,9 @@ class ITIP(GS1Element, TagEncodable):
         verify_gs3a3_component(self._serial)
 
         if (
-            len(f"{self._company_pref}{self._item_ref}{self._piece}{self._total}") != 17
+            len(f"{self._company_pref}{self._item_ref}") != 13
+            or len(self._piece) != 2
+            or len(self._total) != 2
             or not (1 <= len(replace_uri_escapes(self._serial)) <= 20)
             or not (6 <= len(self._company_pref) <= 12)
         ):
-- 
2.43.0


From ad1065203f6f1a8338aa866d77753534932a4962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:27 +0000
Subject: [PATCH 07/25] fix: allow ITIP piece and total 99 in tag encodings

The largest fixed width integer was refused because of an off by one.
---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 85466b8..26c8b77 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -407,7 +407,7 @@ def encode_fixed_width_integer(string: str, bit_count: int) -> str:
     Returns:
         str: Encoded fixed width integer string
     """
-    if int(string) >= (pow(10, int(bit_count * log(2) / log(10))) - 1):
+    if int(string) >= pow(10, int(bit_count * log(2) / log(10))):
         raise ConvertException(message="Fixed width numeric integer too large")
 
     return str_to_binary(string, bit_count)
-- 
2.43.0


From 5c0c627d7f41cb86d77851c387aa4e8b6f09c9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:31 +0000
Subject: [PATCH 08/25] fix: refuse binary encodings the coding scheme cannot
 hold

binary(), hex() and base64() did not check the serial the way tag_uri()
does: too large values overflowed the field, leading zeros were lost and
non-numeric serials raised ValueError.
---
 epcpy/epc_schemes/cpi.py   | 5 +++++
 epcpy/epc_schemes/gdti.py  | 5 +++++
 epcpy/epc_schemes/giai.py  | 5 +++++
 epcpy/epc_schemes/grai.py  | 5 +++++
 epcpy/epc_schemes/itip.py  | 5 +++++
 epcpy/epc_schemes/sgln.py  | 5 +++++
 epcpy/epc_schemes/sgtin.py | 5 +++++
 7 files changed, 35 insertions(+)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index baab3e0..36249b0 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -304,6 +304,11 @@ class CPI(GS1Element, TagEncodable):
         Returns:
             str: binary representation
         """
+        # Refuse values the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._cp_ref]
         serial = self._serial
 
diff --git a/epcpy/epc_schemes/gdti.py b/epcpy/epc_schemes/gdti.py
index f927ea9..faf42b9 100644
--- a/epcpy/epc_schemes/gdti.py
+++ b/epcpy/epc_schemes/gdti.py
@@ -248,6 +248,11 @@ class GDTI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Refuse values the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._doc_type]
 
         header = GDTI.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index a40f18c..d025741 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -308,6 +308,11 @@ class GIAI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Refuse values the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         header = GIAI.BinaryHeader[binary_coding_scheme.name].value
         filter_binary = str_to_binary(filter_value.value, 3)
         parts = [self._company_pref, self._asset_ref]
diff --git a/epcpy/epc_schemes/grai.py b/epcpy/epc_schemes/grai.py
index 3622695..cdf1d87 100644
--- a/epcpy/epc_schemes/grai.py
+++ b/epcpy/epc_schemes/grai.py
@@ -243,6 +243,11 @@ class GRAI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Refuse values the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._asset_type]
 
         header = GRAI.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/itip.py b/epcpy/epc_schemes/itip.py
index 034a5f7..1d422f8 100644
--- a/epcpy/epc_schemes/itip.py
+++ b/epcpy/epc_schemes/itip.py
@@ -246,6 +246,11 @@ class ITIP(GS1Element, TagEncodable):
         Returns:
             str: binary representation
         """
+        # Refuse values the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._item_ref]
 
         header = ITIP.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/sgln.py b/epcpy/epc_schemes/sgln.py
index cccc48c..086b0d9 100644
--- a/epcpy/epc_schemes/sgln.py
+++ b/epcpy/epc_schemes/sgln.py
@@ -243,6 +243,11 @@ class SGLN(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Refuse values the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._location_ref]
 
         header = SGLN.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index 37aee79..cc9958a 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -307,6 +307,11 @@ class SGTIN(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Refuse values the coding scheme cannot represent
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._item_ref]
 
         header = SGTIN.BinaryHeader[binary_coding_scheme.name].value
-- 
2.43.0


From ecd00c8572e2c057cdac047c991fe1316122f352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:34 +0000
Subject: [PATCH 09/25] fix: find ADI terminators on 6-bit boundaries

The terminator search was not aligned, so part numbers or serials ending
in zero bits decoded to something else, and a missing serial terminator
silently dropped the last character.
---
 epcpy/epc_schemes/adi.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/epcpy/epc_schemes/adi.py b/epcpy/epc_schemes/adi.py
index 5831370..4c90dd7 100644
--- a/epcpy/epc_schemes/adi.py
+++ b/epcpy/epc_schemes/adi.py
@@ -200,21 +200,24 @@ class ADI(TagEncodable):
         filter_binary = truncated_binary[8:14]
         cage_code_binary = truncated_binary[14:50]
 
-        if not re.match(".*([0]{6})+.*", truncated_binary[50:]):
+        groups = re.findall("[01]{6}", truncated_binary[50:])
+
+        try:
+            part_number_end = groups.index("000000")
+            serial_end = groups.index("000000", part_number_end + 1)
+        except ValueError:
             raise ConvertException(
                 message="Invalid binary for ADI, missing 6-bit terminators"
             )
 
-        part_number_binary, _, *serial_binary = re.split(
-            "([0]{6})", truncated_binary[50:]
-        )
-        serial_binary_trimmed = "".join(serial_binary)[:-6]
+        part_number_binary = "".join(groups[:part_number_end])
+        serial_binary = "".join(groups[part_number_end + 1 : serial_end])
 
         filter_string = binary_to_int(filter_binary)
         cage_code_string = decode_cage_code_six_bits(cage_code_binary)
         part_number_string = decode_string_six_bits(part_number_binary, 32)
 
-        serial_string = decode_string_six_bits(serial_binary_trimmed, 30)
+        serial_string = decode_string_six_bits(serial_binary, 30)
 
         return cls.from_tag_uri(
             f"{cls.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_string}.{cage_code_string}.{part_number_string}.{serial_string}"
-- 
2.43.0


From a2e703014d8e530825e339ed7d529896417dad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:38 +0000
Subject: [PATCH 10/25] fix: refuse CPI-var binaries with an incomplete serial

A truncated tag read decoded to a different serial number.
---
 epcpy/epc_schemes/cpi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index 36249b0..3920b6d 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -369,7 +369,10 @@ class CPI(GS1Element, TagEncodable):
                 if g == "000000":
                     is_serial = True
 
-            serial_binary = serial_binary[:40] if len(serial_binary) > 0 else "0"
+            if len(serial_binary) < 40:
+                raise ConvertException(message="Invalid binary for CPI, too short")
+
+            serial_binary = serial_binary[:40]
 
         filter_string = binary_to_int(filter_binary)
         serial_string = binary_to_int(serial_binary)
-- 
2.43.0


From 2df83a5bf91c357cf4c4f63e7553380082190892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:41 +0000
Subject: [PATCH 11/25] fix: refuse CPI-96 binaries with an oversized part
 reference

References with more digits than the partition allows were decoded to an
identity that cannot be encoded again.
---
 epcpy/utils/common.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 26c8b77..b67a77b 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -343,16 +343,15 @@ def decode_partition_table(
     else:
         D = str(binary_to_int(D_bin)) if partition["K"] != 0 else ""
 
-    compare_D = not (
-        unpadded_partition or string_partition or six_bit_variable_partition
-    )
+    numeric_D = not (string_partition or six_bit_variable_partition)
+    pad_D = numeric_D and not unpadded_partition
 
     if not C < pow(10, partition["L"]):
         raise ConvertException(message=f"Company prefix length too large")
-    if D != "" and compare_D and not int(D) < pow(10, partition["K"]):
+    if D != "" and numeric_D and not int(D) < pow(10, partition["K"]):
         raise ConvertException(message=f"Item reference length too large")
 
-    return f"{C:>0{partition['L']}}.{D:>0{partition['K'] if compare_D else 0}}"
+    return f"{C:>0{partition['L']}}.{D:>0{partition['K'] if pad_D else 0}}"
 
 
 def encode_numeric_string(string: str, bit_count: int) -> str:
-- 
2.43.0


From 1eb08a4b2a67018bc6651c74037c94b6ca3fab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:44 +0000
Subject: [PATCH 12/25] fix: allow parentheses in serials of GS1 element
 strings

SGTIN, LGTIN and SGLN element strings whose serial contains text such as
(10) failed with a ValueError.
---
 epcpy/epc_schemes/lgtin.py | 4 ++--
 epcpy/epc_schemes/sgln.py  | 4 ++--
 epcpy/epc_schemes/sgtin.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/epcpy/epc_schemes/lgtin.py b/epcpy/epc_schemes/lgtin.py
index 4c29723..330ad1a 100644
--- a/epcpy/epc_schemes/lgtin.py
+++ b/epcpy/epc_schemes/lgtin.py
@@ -141,8 +141,8 @@ class LGTIN(GS1Keyed):
                 message=f"Invalid LGTIN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string)
-        chars = revert_uri_escapes(chars)
+        digits = gs1_element_string[4:18]
+        chars = revert_uri_escapes(gs1_element_string[22:])
 
         return cls(
             f"urn:epc:class:lgtin:{digits[1:company_prefix_length+1]}.{digits[0]}{digits[1+company_prefix_length:-1]}.{chars}"
diff --git a/epcpy/epc_schemes/sgln.py b/epcpy/epc_schemes/sgln.py
index 086b0d9..273d4f0 100644
--- a/epcpy/epc_schemes/sgln.py
+++ b/epcpy/epc_schemes/sgln.py
@@ -192,8 +192,8 @@ class SGLN(TagEncodable, GS1Keyed):
                 message=f"Invalid SGLN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{3}}\)", gs1_element_string)
-        chars = revert_uri_escapes(chars)
+        digits = gs1_element_string[5:18]
+        chars = revert_uri_escapes(gs1_element_string[23:])
 
         return cls(
             f"urn:epc:id:sgln:{digits[:company_prefix_length]}.{digits[company_prefix_length:-1]}.{chars}"
diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index cc9958a..96a8c0e 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -255,8 +255,8 @@ class SGTIN(TagEncodable, GS1Keyed):
                 message=f"Invalid SGTIN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string)
-        chars = revert_uri_escapes(chars)
+        digits = gs1_element_string[4:18]
+        chars = revert_uri_escapes(gs1_element_string[22:])
 
         return cls(
             f"urn:epc:id:sgtin:{digits[1:company_prefix_length+1]}.{digits[0]}{digits[1+company_prefix_length:-1]}.{chars}"
-- 
2.43.0


From 965afd4652d36009822a4911f05ebb2287ab52c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:47 +0000
Subject: [PATCH 13/25] fix: raise ConvertException for headers of another
 scheme

---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index b67a77b..bd2d18d 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -553,7 +553,7 @@ def parse_header_and_truncate_binary(
 
     try:
         scheme = header_to_schemes[header]
-    except ValueError:
+    except KeyError:
         raise ConvertException(message=f"{header} is not a valid header")
 
     _, size = scheme.value.split("-")
-- 
2.43.0


From a73ad56fcd82e4f88acf667876b8f993cfa7f0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:50 +0000
Subject: [PATCH 14/25] fix: raise ConvertException for malformed tag data and
 URIs

Non-binary, non-hexadecimal, non-base64, too short or empty input leaked
ValueError, binascii.Error or IndexError.
---
 epcpy/utils/common.py  | 16 ++++++++++++++--
 epcpy/utils/parsers.py |  6 ++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index bd2d18d..1017466 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -82,7 +82,10 @@ def binary_to_int(binary: str) -> int:
     Returns:
         int: Integer value of binary string
     """
-    return int(binary, 2)
+    try:
+        return int(binary, 2)
+    except ValueError:
+        raise ConvertException(message="Invalid binary string")
 
 
 def str_to_binary(string: str, num_bits: int) -> str:
@@ -108,7 +111,10 @@ def base64_to_hex(base64_string: str) -> str:
         str: Hexadecimal representation
     """
     # Add padding to ensure valid padding
-    return base64.b64decode(f"{base64_string}==").hex()
+    try:
+        return base64.b64decode(f"{base64_string}==").hex()
+    except ValueError:
+        raise ConvertException(message="Invalid base64 string")
 
 
 def hex_to_base64(hex_string: str) -> str:
@@ -132,6 +138,9 @@ def hex_to_binary(hex_string: str) -> str:
     Returns:
         str: Binary string
     """
+    if not re.fullmatch("[0-9a-fA-F]+", hex_string):
+        raise ConvertException(message="Invalid hexadecimal string")
+
     return f"{int(hex_string, 16):0{len(hex_string * 4)}b}"
 
 
@@ -549,6 +558,9 @@ def parse_header_and_truncate_binary(
     Returns:
         Tuple[Enum, str]: Scheme and truncated binary
     """
+    if not re.fullmatch("[01]+", binary_string):
+        raise ConvertException(message="Invalid binary string")
+
     header = binary_string[:8]
 
     try:
diff --git a/epcpy/utils/parsers.py b/epcpy/utils/parsers.py
index 4318b70..693cd5a 100644
--- a/epcpy/utils/parsers.py
+++ b/epcpy/utils/parsers.py
@@ -148,7 +148,8 @@ def epc_pure_identity_to_scheme(epc_pure_identity_uri: str) -> EPCScheme:
     Returns:
         EPCScheme: EPCScheme instance for this URI
     """
-    identifier = epc_pure_identity_uri.split(":")[3]
+    components = epc_pure_identity_uri.split(":")
+    identifier = components[3] if len(components) > 3 else None
 
     if identifier not in EPC_SCHEME_IDENTIFIERS:
         raise ConvertException(message="Unknown EPC URI")
@@ -317,7 +318,8 @@ def tag_uri_to_tag_encodable(epc_tag_uri: str) -> TagEncodable:
     Returns:
         TagEncodable: TagEncodable class for this tag URI
     """
-    identifier = epc_tag_uri.split(":")[3].split("-")[0]
+    components = epc_tag_uri.split(":")
+    identifier = components[3].split("-")[0] if len(components) > 3 else None
 
     if identifier not in TAG_ENCODABLE_SCHEME_IDENTIFIERS:
         raise ConvertException(message="Unknown TagEncodable scheme identifier")
-- 
2.43.0


From 576e8b3e406f1cc58ddd7294241ecddf5324483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:53 +0000
Subject: [PATCH 15/25] fix: accept ASCII digits only

The digit class also matched other Unicode digits, so that identities with
e.g. Arabic-Indic digits were accepted.
---
 epcpy/utils/regex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/epcpy/utils/regex.py b/epcpy/utils/regex.py
index 8b415cc..36bba47 100644
--- a/epcpy/utils/regex.py
+++ b/epcpy/utils/regex.py
@@ -1,14 +1,14 @@
 # Generic
 CPREF_COMPONENT = "([0-9A-Z-]|%2F|%23)+"
-NUMERIC_COMPONENT = "(0|[1-9]\d*)"
+NUMERIC_COMPONENT = "(0|[1-9][0-9]*)"
 GS3A3_CHAR = "((%[0-9a-fA-F]{2})|([a-zA-Z0-9!'()*+,-.:;=_]))"
 GS3A3_COMPONENT = f"{GS3A3_CHAR}+"
-PADDED_NUMERIC_COMPONENT = "\d+"
-PADDED_NUMERIC_COMPONENT_OR_EMPTY = "\d*"
+PADDED_NUMERIC_COMPONENT = "[0-9]+"
+PADDED_NUMERIC_COMPONENT_OR_EMPTY = "[0-9]*"
 VERIFY_GS3A3_CHARS = "[a-zA-Z0-9!'()*+,-.:;=_\"%&/<>?]+"
 GS1_ELEM_CHARS = "[a-zA-Z0-9!'()*+,-.:;=_\"%&/<>?]"
 GS1_ELEM_CHARS_CPI = "[0-9A-Z\/\-\#]"
-DIGIT = "\d"
+DIGIT = "[0-9]"
 
 FOUR_PADDED_NUMERIC_COMPONENTS = f"{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}"
 
-- 
2.43.0


From 3093886b071a99a5270b3445712313d4b66a4217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:57 +0000
Subject: [PATCH 16/25] fix: pass positional arguments of hex and base64 on to
 binary

They were dropped, so a positional filter value was silently replaced by
the default or the call failed with a TypeError.
---
 epcpy/epc_schemes/base_scheme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epcpy/epc_schemes/base_scheme.py b/epcpy/epc_schemes/base_scheme.py
index c951c98..dc2322c 100644
--- a/epcpy/epc_schemes/base_scheme.py
+++ b/epcpy/epc_schemes/base_scheme.py
@@ -109,7 +109,7 @@ class TagEncodable(EPCScheme):
         Returns:
             str: The hexadecimal representation.
         """
-        binary = self.binary(**kwargs)
+        binary = self.binary(*args, **kwargs)
 
         padding = (16 - (len(binary) % 16)) % 16
         padded_binary = f"{binary:<0{len(binary) + padding}}"
@@ -122,7 +122,7 @@ class TagEncodable(EPCScheme):
         Returns:
             str: The base64 representation.
         """
-        hex_string = self.hex(**kwargs)
+        hex_string = self.hex(*args, **kwargs)
 
         return hex_to_base64(hex_string)
 
-- 
2.43.0


From 28bf8781a3b212d031a560f423d20ef95e39f6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:59 +0000
Subject: [PATCH 17/25] fix: refuse overlong GID and USDOD numbers without
 converting them

Numbers of more than 4300 digits raised ValueError instead of
ConvertException.
---
 epcpy/epc_schemes/gid.py   | 10 ++++++----
 epcpy/epc_schemes/usdod.py |  6 ++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/epcpy/epc_schemes/gid.py b/epcpy/epc_schemes/gid.py
index c5daa6f..02a9216 100644
--- a/epcpy/epc_schemes/gid.py
+++ b/epcpy/epc_schemes/gid.py
@@ -49,14 +49,16 @@ class GID(TagEncodable):
 
         self._manager, self._object, self._serial = epc_uri.split(":")[4].split(".")
 
-        if int(self._manager) >= pow(2, 28):
+        if len(self._manager) > 9 or int(self._manager) >= pow(2, 28):
             raise ConvertException(message=f"Manager out of range: (max: {pow(2, 28)})")
 
-        if int(self._object) >= pow(2, 24):
+        if len(self._object) > 8 or int(self._object) >= pow(2, 24):
             raise ConvertException(message=f"Object out of range: (max: {pow(2, 24)})")
 
-        if int(self._serial) >= pow(2, 36) or (
-            len(self._serial) > 1 and self._serial[0] == "0"
+        if (
+            len(self._serial) > 11
+            or int(self._serial) >= pow(2, 36)
+            or (len(self._serial) > 1 and self._serial[0] == "0")
         ):
             raise ConvertException(message=f"Serial out of range: (max: {pow(2, 36)})")
 
diff --git a/epcpy/epc_schemes/usdod.py b/epcpy/epc_schemes/usdod.py
index 119cd5f..a3aabb6 100644
--- a/epcpy/epc_schemes/usdod.py
+++ b/epcpy/epc_schemes/usdod.py
@@ -70,8 +70,10 @@ class USDOD(TagEncodable):
 
         self._cage_dodaac, self._serial = epc_uri.split(":")[4].split(".")
 
-        if int(self._serial) >= pow(2, 36) or (
-            len(self._serial) > 1 and self._serial[0] == "0"
+        if (
+            len(self._serial) > 11
+            or int(self._serial) >= pow(2, 36)
+            or (len(self._serial) > 1 and self._serial[0] == "0")
         ):
             raise ConvertException(message=f"Serial out of range: (max: {pow(2, 36)})")
 
-- 
2.43.0


From 3b3928dd323f1c35df703bf053a7fb50e9521793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:33 +0000
Subject: [PATCH 18/25] fix: refuse GIAI and GINC element strings split inside
 the reference

---
 epcpy/epc_schemes/giai.py | 6 ++++++
 epcpy/epc_schemes/ginc.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index d025741..cd7ce56 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -252,6 +252,12 @@ class GIAI(TagEncodable, GS1Keyed):
 
         digits = gs1_element_string[6 : 6 + company_prefix_length]
         chars = gs1_element_string[6 + company_prefix_length :]
+
+        if "." in digits:
+            raise ConvertException(
+                message=f"Invalid GIAI GS1 element string {gs1_element_string}"
+            )
+
         chars = revert_uri_escapes(chars)
 
         return cls(f"urn:epc:id:giai:{digits}.{chars}")
diff --git a/epcpy/epc_schemes/ginc.py b/epcpy/epc_schemes/ginc.py
index 175ef3d..290132d 100644
--- a/epcpy/epc_schemes/ginc.py
+++ b/epcpy/epc_schemes/ginc.py
@@ -100,6 +100,12 @@ class GINC(GS1Keyed):
 
         digits = gs1_element_string[5 : 5 + company_prefix_length]
         chars = gs1_element_string[5 + company_prefix_length :]
+
+        if "." in digits:
+            raise ConvertException(
+                message=f"Invalid GINC GS1 element string {gs1_element_string}"
+            )
+
         chars = revert_uri_escapes(chars)
 
         return cls(f"urn:epc:id:ginc:{digits}.{chars}")
-- 
2.43.0


From a6a4e5a3da41344bd29f14bf6e1579113383da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:35 +0000
Subject: [PATCH 19/25] fix: refuse GTINs with anything but digits

---
 epcpy/epc_schemes/sgtin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index 96a8c0e..7e227db 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -187,6 +187,9 @@ class SGTIN(TagEncodable, GS1Keyed):
         Returns:
             SGTIN: Instance of SGTIN class based on the provided data
         """
+        if not (gtin.isascii() and gtin.isdigit()):
+            raise ConvertException(message=f"Invalid GTIN {gtin}")
+
         gtin = gtin.zfill(14)
         return cls(
             f"urn:epc:id:sgtin:{gtin[1:1 + company_prefix_length]}.{gtin[0]}{gtin[1 + company_prefix_length:-1]}.{str(serial)}"
-- 
2.43.0


From de1267d2fe7bb2a422c69762e82c8377567807e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:35 +0000
Subject: [PATCH 20/25] fix: return CPI tag URIs without sharing them through
 the object

---
 epcpy/epc_schemes/cpi.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index 3920b6d..97448e9 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -286,9 +286,7 @@ class CPI(GS1Element, TagEncodable):
         ):
             raise ConvertException(message=f"Invalid serial value {self._serial}")
 
-        self._tag_uri = f"{self.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_value.value}.{self._company_pref}.{self._cp_ref}.{self._serial}"
-
-        return self._tag_uri
+        return f"{self.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_value.value}.{self._company_pref}.{self._cp_ref}.{self._serial}"
 
     def binary(
         self,
-- 
2.43.0


From 3461b485544911ac6330a699cc7251de0b3ad0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:36 +0000
Subject: [PATCH 21/25] fix: refuse percent codes in six-bit tag text instead
 of reading them as escapes

---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 1017466..2ea951c 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -205,7 +205,7 @@ def decode_string_six_bits(binary: str, max_chars: int) -> str:
     if len(res) > max_chars:
         raise ConvertException(message="Too many characters decoded!")
 
-    return res.replace("#", "%23").replace("/", "%2F")
+    return res.replace("%", "%25").replace("#", "%23").replace("/", "%2F")
 
 
 def encode_string_six_bits(string: str) -> str:
-- 
2.43.0


From 483b394aa33040d1207a7889f77f7b00ef3cb986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:08:36 +0000
Subject: [PATCH 22/25] fix: refuse tag URIs with trailing text

---
 epcpy/epc_schemes/base_scheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/base_scheme.py b/epcpy/epc_schemes/base_scheme.py
index dc2322c..d3249bf 100644
--- a/epcpy/epc_schemes/base_scheme.py
+++ b/epcpy/epc_schemes/base_scheme.py
@@ -183,7 +183,7 @@ class TagEncodable(EPCScheme):
         Returns:
             TagEncodable: Instance of TagEncodable class
         """
-        if not TagEncodable.TAG_URI_REGEX.match(epc_tag_uri):
+        if not TagEncodable.TAG_URI_REGEX.fullmatch(epc_tag_uri):
             raise ConvertException(message=f"Invalid EPC tag URI {epc_tag_uri}")
 
         epc_scheme = epc_tag_uri.split(":")[3]
-- 
2.43.0


From 7048794a213071bdc2e98b75f6e15d4a7452bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:25:02 +0000
Subject: [PATCH 23/25] fix: refuse seven-bit text with characters after a zero
 character

---
 epcpy/utils/common.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 2ea951c..172312d 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -258,9 +258,18 @@ def decode_string(binary: str) -> str:
     Args:
         binary (str): Binary string to decode
 
+    Raises:
+        ConvertException: Character after a zero character
+
     Returns:
         str: Decoded string
     """
+    segments = re.findall("." * 7, binary)
+    while segments and segments[-1] == "0000000":
+        segments.pop()
+    if "0000000" in segments:
+        raise ConvertException(message="Character after a zero character")
+
     return "".join(
         list(
             map(
-- 
2.43.0


From 2126637ed7ce223f2b234182c94c635201423e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:25:04 +0000
Subject: [PATCH 24/25] fix: refuse zero characters in the CAGE code of ADI
 memory

---
 epcpy/utils/common.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 172312d..8bc5caa 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -481,12 +481,18 @@ def decode_cage_code_six_bits(binary: str) -> str:
     Args:
         binary (str): Binary string to decode
 
+    Raises:
+        ConvertException: Zero character in the code
+
     Returns:
         str: Decoded string
     """
     if binary.startswith("100000"):
         binary = binary[6:]
 
+    if "000000" in re.findall("[01]{6}", binary):
+        raise ConvertException(message="Zero character in CAGE code or DoDAAC")
+
     return decode_string_six_bits(binary, 6)
 
 
-- 
2.43.0


From 242d32dc129b69c4c4033cd30dba32658e7f4d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:25:07 +0000
Subject: [PATCH 25/25] fix: only drop the leading space of a CAGE code in
 USDOD memory

---
 epcpy/utils/common.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 8bc5caa..0b8b07d 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -458,9 +458,10 @@ def decode_cage_code(binary: str) -> str:
     Returns:
         str: Decoded string
     """
-    return "".join(
+    chars = "".join(
         [chr(int(g, 2)) if g != "" else "" for g in re.split("([0-1]{8})", binary)]
-    ).replace(" ", "")
+    )
+    return chars[1:] if chars.startswith(" ") else chars
 
 
 def encode_cage_code(chars: str) -> str:
-- 
2.43.0

