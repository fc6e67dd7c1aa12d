From 4ea3fc6e237b3dc6541958d719e14716a05130b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:30 +0000
Subject: [PATCH 01/22] fix: parse element strings whose serial contains
 parentheses

A serial such as "(ab)" looks like another application identifier to the
split, which then yields more parts than expected.
---
 epcpy/epc_schemes/lgtin.py | 2 +-
 epcpy/epc_schemes/sgln.py  | 2 +-
 epcpy/epc_schemes/sgtin.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/epcpy/epc_schemes/lgtin.py b/epcpy/epc_schemes/lgtin.py
index 4c29723..610664c 100644
--- a/epcpy/epc_schemes/lgtin.py
+++ b/epcpy/epc_schemes/lgtin.py
@@ -141,7 +141,7 @@ class LGTIN(GS1Keyed):
                 message=f"Invalid LGTIN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string)
+        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string, maxsplit=2)
         chars = revert_uri_escapes(chars)
 
         return cls(
diff --git a/epcpy/epc_schemes/sgln.py b/epcpy/epc_schemes/sgln.py
index cccc48c..b028202 100644
--- a/epcpy/epc_schemes/sgln.py
+++ b/epcpy/epc_schemes/sgln.py
@@ -192,7 +192,7 @@ class SGLN(TagEncodable, GS1Keyed):
                 message=f"Invalid SGLN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{3}}\)", gs1_element_string)
+        _, digits, chars = re.split(f"\(.{{3}}\)", gs1_element_string, maxsplit=2)
         chars = revert_uri_escapes(chars)
 
         return cls(
diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index 37aee79..eb18597 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -255,7 +255,7 @@ class SGTIN(TagEncodable, GS1Keyed):
                 message=f"Invalid SGTIN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string)
+        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string, maxsplit=2)
         chars = revert_uri_escapes(chars)
 
         return cls(
-- 
2.43.0


From c1f5648bfa81e3ff5a0ea9e529f37ec6bce71aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:32 +0000
Subject: [PATCH 02/22] fix: keep everything after a colon in a GIAI asset
 reference

The colon is a permitted character, but the asset reference was cut off
at the first one.
---
 epcpy/epc_schemes/giai.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 0e7dc5f..98fedf8 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -194,7 +194,7 @@ class GIAI(TagEncodable, GS1Keyed):
         if not GIAI_URI_REGEX.fullmatch(epc_uri):
             raise ConvertException(message=f"Invalid GIAI URI {epc_uri}")
 
-        company_prefix, *asset_reference = epc_uri.split(":")[4].split(".")
+        company_prefix, *asset_reference = ":".join(epc_uri.split(":")[4:]).split(".")
         asset_reference = ".".join(asset_reference)
 
         if (
-- 
2.43.0


From a2b5c177b00a0ad95131bae742f6d51fd96cfe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:35 +0000
Subject: [PATCH 03/22] fix: verify URI escapes as two hexadecimal digits

Escapes with a letter such as %2F were not recognised when followed by
other characters, and malformed escapes such as %4z were accepted.
---
 epcpy/utils/common.py | 2 +-
 epcpy/utils/regex.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index b2e0260..d5f53e6 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -506,7 +506,7 @@ def verify_gs3a3_component(gs3a3_component: str):
         ConvertException: Component not valid
     """
     res = ""
-    for g in re.split("(%\d\d)", gs3a3_component):
+    for g in re.split("(%[0-9a-fA-F]{2})", gs3a3_component):
         if len(g) == 0:
             continue
         elif g[0] != "%":
diff --git a/epcpy/utils/regex.py b/epcpy/utils/regex.py
index cda91f4..8b415cc 100644
--- a/epcpy/utils/regex.py
+++ b/epcpy/utils/regex.py
@@ -1,7 +1,7 @@
 # Generic
 CPREF_COMPONENT = "([0-9A-Z-]|%2F|%23)+"
 NUMERIC_COMPONENT = "(0|[1-9]\d*)"
-GS3A3_CHAR = "((%[0-9a-fA-F])|([a-zA-Z0-9!'()*+,-.:;=_]))"
+GS3A3_CHAR = "((%[0-9a-fA-F]{2})|([a-zA-Z0-9!'()*+,-.:;=_]))"
 GS3A3_COMPONENT = f"{GS3A3_CHAR}+"
 PADDED_NUMERIC_COMPONENT = "\d+"
 PADDED_NUMERIC_COMPONENT_OR_EMPTY = "\d*"
-- 
2.43.0


From 13469ccc94cb17f75af152d70467816c1a2c2f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:37 +0000
Subject: [PATCH 04/22] fix: refuse unknown binary headers with a
 ConvertException

Looking up a missing header raises KeyError, not ValueError.
---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index d5f53e6..e73e047 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -562,7 +562,7 @@ def parse_header_and_truncate_binary(
 
     try:
         scheme = header_to_schemes[header]
-    except ValueError:
+    except KeyError:
         raise ConvertException(message=f"{header} is not a valid header")
 
     _, size = scheme.value.split("-")
-- 
2.43.0


From 0b2a74f4e859a77a128fafb0b4cfaf318c85f356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:39 +0000
Subject: [PATCH 05/22] fix: allow the largest fixed width integer

Piece and total 99 fit the two digit field and can be decoded.
---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index e73e047..3c12835 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -415,7 +415,7 @@ def encode_fixed_width_integer(string: str, bit_count: int) -> str:
     Returns:
         str: Encoded fixed width integer string
     """
-    if int(string) >= (pow(10, int(bit_count * log(2) / log(10))) - 1):
+    if int(string) > (pow(10, int(bit_count * log(2) / log(10))) - 1):
         raise ConvertException(message="Fixed width numeric integer too large")
 
     return str_to_binary(string, bit_count)
-- 
2.43.0


From 2c199b35429fbab945c28cdb3b595984b81d09f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:31 +0000
Subject: [PATCH 06/22] fix: look for ADI terminators on six bit boundaries
 only

Six zero bits spanning two characters, as in part number "PA", were taken
for the terminator.
---
 epcpy/epc_schemes/adi.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/epcpy/epc_schemes/adi.py b/epcpy/epc_schemes/adi.py
index 5831370..86d3f06 100644
--- a/epcpy/epc_schemes/adi.py
+++ b/epcpy/epc_schemes/adi.py
@@ -200,21 +200,22 @@ class ADI(TagEncodable):
         filter_binary = truncated_binary[8:14]
         cage_code_binary = truncated_binary[14:50]
 
-        if not re.match(".*([0]{6})+.*", truncated_binary[50:]):
+        groups = re.findall("[0-1]{6}", truncated_binary[50:])
+
+        if groups.count("000000") < 2:
             raise ConvertException(
                 message="Invalid binary for ADI, missing 6-bit terminators"
             )
 
-        part_number_binary, _, *serial_binary = re.split(
-            "([0]{6})", truncated_binary[50:]
-        )
-        serial_binary_trimmed = "".join(serial_binary)[:-6]
+        part_number_end = groups.index("000000")
+        part_number_binary = "".join(groups[:part_number_end])
+        serial_binary = "".join(groups[part_number_end + 1 :])
 
         filter_string = binary_to_int(filter_binary)
         cage_code_string = decode_cage_code_six_bits(cage_code_binary)
         part_number_string = decode_string_six_bits(part_number_binary, 32)
 
-        serial_string = decode_string_six_bits(serial_binary_trimmed, 30)
+        serial_string = decode_string_six_bits(serial_binary, 30)
 
         return cls.from_tag_uri(
             f"{cls.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_string}.{cage_code_string}.{part_number_string}.{serial_string}"
-- 
2.43.0


From ce21345455c0b92e73f2acb82661e44575a709b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:34 +0000
Subject: [PATCH 07/22] fix: refuse to encode identities the binary coding
 scheme cannot hold

binary(), hex() and base64() did not apply the checks tag_uri() does.
Serials with leading zeros or too large a value were written as a
different identity, and non-numeric ones raised ValueError.
---
 epcpy/epc_schemes/cpi.py   | 5 +++++
 epcpy/epc_schemes/gdti.py  | 5 +++++
 epcpy/epc_schemes/giai.py  | 5 +++++
 epcpy/epc_schemes/grai.py  | 5 +++++
 epcpy/epc_schemes/itip.py  | 5 +++++
 epcpy/epc_schemes/sgln.py  | 5 +++++
 epcpy/epc_schemes/sgtin.py | 5 +++++
 7 files changed, 35 insertions(+)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index a381313..55382c9 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -304,6 +304,11 @@ class CPI(GS1Element, TagEncodable):
         Returns:
             str: binary representation
         """
+        # Raises when this identity cannot be represented in the coding scheme
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._cp_ref]
         serial = self._serial
 
diff --git a/epcpy/epc_schemes/gdti.py b/epcpy/epc_schemes/gdti.py
index 218df08..f70d35b 100644
--- a/epcpy/epc_schemes/gdti.py
+++ b/epcpy/epc_schemes/gdti.py
@@ -248,6 +248,11 @@ class GDTI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Raises when this identity cannot be represented in the coding scheme
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._doc_type]
 
         header = GDTI.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 98fedf8..599b343 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -308,6 +308,11 @@ class GIAI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Raises when this identity cannot be represented in the coding scheme
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         header = GIAI.BinaryHeader[binary_coding_scheme.name].value
         filter_binary = str_to_binary(filter_value.value, 3)
         parts = [self._company_pref, self._asset_ref]
diff --git a/epcpy/epc_schemes/grai.py b/epcpy/epc_schemes/grai.py
index 7b24302..0dc0a8e 100644
--- a/epcpy/epc_schemes/grai.py
+++ b/epcpy/epc_schemes/grai.py
@@ -243,6 +243,11 @@ class GRAI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Raises when this identity cannot be represented in the coding scheme
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._asset_type]
 
         header = GRAI.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/itip.py b/epcpy/epc_schemes/itip.py
index 075ba55..7b2469f 100644
--- a/epcpy/epc_schemes/itip.py
+++ b/epcpy/epc_schemes/itip.py
@@ -244,6 +244,11 @@ class ITIP(GS1Element, TagEncodable):
         Returns:
             str: binary representation
         """
+        # Raises when this identity cannot be represented in the coding scheme
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._item_ref]
 
         header = ITIP.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/sgln.py b/epcpy/epc_schemes/sgln.py
index b028202..7038778 100644
--- a/epcpy/epc_schemes/sgln.py
+++ b/epcpy/epc_schemes/sgln.py
@@ -243,6 +243,11 @@ class SGLN(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Raises when this identity cannot be represented in the coding scheme
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._location_ref]
 
         header = SGLN.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index eb18597..3022ab8 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -307,6 +307,11 @@ class SGTIN(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Raises when this identity cannot be represented in the coding scheme
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._item_ref]
 
         header = SGTIN.BinaryHeader[binary_coding_scheme.name].value
-- 
2.43.0


From b2d5ad1c0dd33b9667a20009cf8de74397be0a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:36 +0000
Subject: [PATCH 08/22] fix: require two digit piece and total numbers in ITIP
 URIs

Only the combined length was checked, so that "4012345.0123451.1.02" was
accepted.
---
 epcpy/epc_schemes/itip.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/epcpy/epc_schemes/itip.py b/epcpy/epc_schemes/itip.py
index 7b2469f..1652cd0 100644
--- a/epcpy/epc_schemes/itip.py
+++ b/epcpy/epc_schemes/itip.py
@@ -149,6 +149,8 @@ class ITIP(GS1Element, TagEncodable):
 
         if (
             len(f"{self._company_pref}{self._item_ref}{self._piece}{self._total}") != 17
+            or len(self._piece) != 2
+            or len(self._total) != 2
             or not (1 <= len(replace_uri_escapes(self._serial)) <= 20)
             or not (6 <= len(self._company_pref) <= 12)
         ):
-- 
2.43.0


From cf43cbb6634d11a5d6ff5543bfdc1b569925c1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:39 +0000
Subject: [PATCH 09/22] fix: accept ASCII digits only

"\d" also matches the digits of other scripts.
---
 epcpy/utils/regex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/epcpy/utils/regex.py b/epcpy/utils/regex.py
index 8b415cc..36bba47 100644
--- a/epcpy/utils/regex.py
+++ b/epcpy/utils/regex.py
@@ -1,14 +1,14 @@
 # Generic
 CPREF_COMPONENT = "([0-9A-Z-]|%2F|%23)+"
-NUMERIC_COMPONENT = "(0|[1-9]\d*)"
+NUMERIC_COMPONENT = "(0|[1-9][0-9]*)"
 GS3A3_CHAR = "((%[0-9a-fA-F]{2})|([a-zA-Z0-9!'()*+,-.:;=_]))"
 GS3A3_COMPONENT = f"{GS3A3_CHAR}+"
-PADDED_NUMERIC_COMPONENT = "\d+"
-PADDED_NUMERIC_COMPONENT_OR_EMPTY = "\d*"
+PADDED_NUMERIC_COMPONENT = "[0-9]+"
+PADDED_NUMERIC_COMPONENT_OR_EMPTY = "[0-9]*"
 VERIFY_GS3A3_CHARS = "[a-zA-Z0-9!'()*+,-.:;=_\"%&/<>?]+"
 GS1_ELEM_CHARS = "[a-zA-Z0-9!'()*+,-.:;=_\"%&/<>?]"
 GS1_ELEM_CHARS_CPI = "[0-9A-Z\/\-\#]"
-DIGIT = "\d"
+DIGIT = "[0-9]"
 
 FOUR_PADDED_NUMERIC_COMPONENTS = f"{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}"
 
-- 
2.43.0


From 6d939bd4400aae6d245fa4aa55c8aa972b69fe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:42 +0000
Subject: [PATCH 10/22] fix: count an escaped character as one character

The length limits of GRAI, GDTI, GIAI and CPI were applied to the escaped
form, so valid identities with escapes were refused.
---
 epcpy/epc_schemes/cpi.py  | 2 +-
 epcpy/epc_schemes/gdti.py | 2 +-
 epcpy/epc_schemes/giai.py | 2 +-
 epcpy/epc_schemes/grai.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index 55382c9..d7fe696 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -211,7 +211,7 @@ class CPI(GS1Element, TagEncodable):
         )
 
         if (
-            len("".join([self._company_pref, self._cp_ref])) > 30
+            len("".join([self._company_pref, replace_cpi_escapes(self._cp_ref)])) > 30
             or len(self._serial) > 12
             or not (6 <= len(self._company_pref) <= 12)
         ):
diff --git a/epcpy/epc_schemes/gdti.py b/epcpy/epc_schemes/gdti.py
index f70d35b..811e0d6 100644
--- a/epcpy/epc_schemes/gdti.py
+++ b/epcpy/epc_schemes/gdti.py
@@ -142,7 +142,7 @@ class GDTI(TagEncodable, GS1Keyed):
 
         if (
             len(f"{self._company_pref}{self._doc_type}") != 12
-            or len(self._serial) > 17
+            or len(replace_uri_escapes(self._serial)) > 17
             or not (6 <= len(self._company_pref) <= 12)
         ):
             raise ConvertException(
diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 599b343..18d20d2 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -199,7 +199,7 @@ class GIAI(TagEncodable, GS1Keyed):
 
         if (
             not (6 <= len(company_prefix) <= 12)
-            or len(f"{company_prefix}{asset_reference}") > 30
+            or len(f"{company_prefix}{replace_uri_escapes(asset_reference)}") > 30
         ):
             raise ConvertException(
                 message=f"Invalid company prefix length {len(company_prefix)}"
diff --git a/epcpy/epc_schemes/grai.py b/epcpy/epc_schemes/grai.py
index 0dc0a8e..61c52ed 100644
--- a/epcpy/epc_schemes/grai.py
+++ b/epcpy/epc_schemes/grai.py
@@ -143,7 +143,7 @@ class GRAI(TagEncodable, GS1Keyed):
         if (
             len(f"{self._company_pref}{self._asset_type}") != 12
             or not (6 <= len(self._company_pref) <= 12)
-            or len(self._serial) > 16
+            or len(replace_uri_escapes(self._serial)) > 16
         ):
             raise ConvertException(message=f"Invalid EPC URI {epc_uri}")
 
-- 
2.43.0


From 7de86103f2b404769cde4fcf29b3cac475ef2aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:44 +0000
Subject: [PATCH 11/22] fix: check the company prefix length of UPUI URIs

---
 epcpy/epc_schemes/upui.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/upui.py b/epcpy/epc_schemes/upui.py
index 1578323..de71fd7 100644
--- a/epcpy/epc_schemes/upui.py
+++ b/epcpy/epc_schemes/upui.py
@@ -50,7 +50,9 @@ class UPUI(GS1Element):
         if not (1 <= len(self._tpx) <= 28):
             raise ConvertException(message=f"Incorrect TPX size")
 
-        if len(f"{self._company_pref}{self._item_ref}") != 13:
+        if len(f"{self._company_pref}{self._item_ref}") != 13 or not (
+            6 <= len(self._company_pref) <= 12
+        ):
             raise ConvertException(
                 message=f"Wrong company prefix + item ref size (!=13)"
             )
-- 
2.43.0


From 4849c7c1b503264001ef0a4f0a5abd082c745563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:46 +0000
Subject: [PATCH 12/22] fix: raise ConvertException for URIs with too few
 components

---
 epcpy/utils/parsers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epcpy/utils/parsers.py b/epcpy/utils/parsers.py
index 4318b70..57a7ad8 100644
--- a/epcpy/utils/parsers.py
+++ b/epcpy/utils/parsers.py
@@ -148,7 +148,7 @@ def epc_pure_identity_to_scheme(epc_pure_identity_uri: str) -> EPCScheme:
     Returns:
         EPCScheme: EPCScheme instance for this URI
     """
-    identifier = epc_pure_identity_uri.split(":")[3]
+    identifier = ":".join(epc_pure_identity_uri.split(":")[3:4])
 
     if identifier not in EPC_SCHEME_IDENTIFIERS:
         raise ConvertException(message="Unknown EPC URI")
@@ -317,7 +317,7 @@ def tag_uri_to_tag_encodable(epc_tag_uri: str) -> TagEncodable:
     Returns:
         TagEncodable: TagEncodable class for this tag URI
     """
-    identifier = epc_tag_uri.split(":")[3].split("-")[0]
+    identifier = ":".join(epc_tag_uri.split(":")[3:4]).split("-")[0]
 
     if identifier not in TAG_ENCODABLE_SCHEME_IDENTIFIERS:
         raise ConvertException(message="Unknown TagEncodable scheme identifier")
-- 
2.43.0


From 348bb124524a8576b3dbb7967e6ea264e054f01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:48 +0000
Subject: [PATCH 13/22] fix: raise ConvertException for malformed binary, hex
 and base64 input

---
 epcpy/utils/common.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 3c12835..5d991e4 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -90,7 +90,10 @@ def binary_to_int(binary: str) -> int:
     Returns:
         int: Integer value of binary string
     """
-    return int(binary, 2)
+    try:
+        return int(binary, 2)
+    except ValueError:
+        raise ConvertException(message=f"Invalid binary string {binary}")
 
 
 def str_to_binary(string: str, num_bits: int) -> str:
@@ -116,7 +119,10 @@ def base64_to_hex(base64_string: str) -> str:
         str: Hexadecimal representation
     """
     # Add padding to ensure valid padding
-    return base64.b64decode(f"{base64_string}==").hex()
+    try:
+        return base64.b64decode(f"{base64_string}==").hex()
+    except ValueError:
+        raise ConvertException(message=f"Invalid base64 string {base64_string}")
 
 
 def hex_to_base64(hex_string: str) -> str:
@@ -140,6 +146,9 @@ def hex_to_binary(hex_string: str) -> str:
     Returns:
         str: Binary string
     """
+    if not re.fullmatch("[0-9a-fA-F]+", hex_string):
+        raise ConvertException(message=f"Invalid hexadecimal string {hex_string}")
+
     return f"{int(hex_string, 16):0{len(hex_string * 4)}b}"
 
 
@@ -573,6 +582,9 @@ def parse_header_and_truncate_binary(
             message=f"Invalid binary size, expected (>=): {size} actual: {len(binary_string)}"
         )
 
+    if not re.fullmatch("[01]+", binary_string):
+        raise ConvertException(message=f"Invalid binary string {binary_string}")
+
     truncated_binary = binary_string[:size]
 
     return scheme, truncated_binary
-- 
2.43.0


From 4c795c2f6cc96002f6fc7e3cfed11091bfeb1a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:50 +0000
Subject: [PATCH 14/22] fix: do not read six bit percent signs as the start of
 an escape

The characters %, 2 and F on a tag were decoded as a slash.
---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 5d991e4..5fd6677 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -213,7 +213,7 @@ def decode_string_six_bits(binary: str, max_chars: int) -> str:
     if len(res) > max_chars:
         raise ConvertException(message="Too many characters decoded!")
 
-    return res.replace("#", "%23").replace("/", "%2F")
+    return res.replace("%", "%25").replace("#", "%23").replace("/", "%2F")
 
 
 def encode_string_six_bits(string: str) -> str:
-- 
2.43.0


From ca4ff8b89b3a383abe1fbd7df007af190a46065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:53 +0000
Subject: [PATCH 15/22] fix: strip only leading spaces from a CAGE code

A space between the characters made a different, shorter code.
---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 5fd6677..45a3c3b 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -460,7 +460,7 @@ def decode_cage_code(binary: str) -> str:
     """
     return "".join(
         [chr(int(g, 2)) if g != "" else "" for g in re.split("([0-1]{8})", binary)]
-    ).replace(" ", "")
+    ).lstrip(" ")
 
 
 def encode_cage_code(chars: str) -> str:
-- 
2.43.0


From e57f3ab85bb2a2072483d51e91598d7a69881992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:55 +0000
Subject: [PATCH 16/22] fix: refuse characters after the end of a seven bit
 string

They were appended to the characters before the terminator.
---
 epcpy/utils/common.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 45a3c3b..c79c8c5 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -269,15 +269,18 @@ def decode_string(binary: str) -> str:
     Returns:
         str: Decoded string
     """
-    return "".join(
-        list(
-            map(
-                decode_binary_char,
-                re.findall("." * 7, binary),
-            )
+    chars = list(
+        map(
+            decode_binary_char,
+            re.findall("." * 7, binary),
         )
     )
 
+    if "" in chars and any(chars[chars.index("") :]):
+        raise ConvertException(message="Characters found after end of string")
+
+    return "".join(chars)
+
 
 def encode_partition_table(
     parts: List[str],
-- 
2.43.0


From e03f80bfcbb504cc17fe755b41fccdf84c5f9dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:57 +0000
Subject: [PATCH 17/22] fix: refuse variable length CPI tags without a complete
 serial

A missing serial was read as 0 and a truncated one as a smaller number.
---
 epcpy/epc_schemes/cpi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index d7fe696..19caca7 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -369,7 +369,10 @@ class CPI(GS1Element, TagEncodable):
                 if g == "000000":
                     is_serial = True
 
-            serial_binary = serial_binary[:40] if len(serial_binary) > 0 else "0"
+            if len(serial_binary) < 40:
+                raise ConvertException(message="Missing serial in CPI binary")
+
+            serial_binary = serial_binary[:40]
 
         filter_string = binary_to_int(filter_binary)
         serial_string = binary_to_int(serial_binary)
-- 
2.43.0


From d52a532d344d7b116057be41ea9497002bbb62d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:59 +0000
Subject: [PATCH 18/22] fix: refuse a terminator inside a six bit CAGE code

A five character code is preceded by a space, not followed by a terminator.
---
 epcpy/utils/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index c79c8c5..a3c1487 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -489,6 +489,8 @@ def decode_cage_code_six_bits(binary: str) -> str:
     """
     if binary.startswith("100000"):
         binary = binary[6:]
+    elif binary.endswith("000000"):
+        raise ConvertException(message="Invalid six bit CAGE code")
 
     return decode_string_six_bits(binary, 6)
 
-- 
2.43.0


From 505d22bec62b7fe36060a47d2b04dab57e5ffa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:50:11 +0000
Subject: [PATCH 19/22] fix: refuse reference bits where the partition has no
 reference

---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index a3c1487..6f6211b 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -369,7 +369,7 @@ def decode_partition_table(
 
     if not C < pow(10, partition["L"]):
         raise ConvertException(message=f"Company prefix length too large")
-    if D != "" and compare_D and not int(D) < pow(10, partition["K"]):
+    if compare_D and not binary_to_int(D_bin) < pow(10, partition["K"]):
         raise ConvertException(message=f"Item reference length too large")
 
     return f"{C:>0{partition['L']}}.{D:>0{partition['K'] if compare_D else 0}}"
-- 
2.43.0


From ea9b61c2e8f2cf024506c308a19caf8c1e47b80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:00:09 +0000
Subject: [PATCH 20/22] fix: refuse GIAI and GINC element strings whose company
 prefix is not numeric

---
 epcpy/epc_schemes/giai.py | 3 +++
 epcpy/epc_schemes/ginc.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 18d20d2..e9dca2c 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -251,6 +251,9 @@ class GIAI(TagEncodable, GS1Keyed):
             )
 
         digits = gs1_element_string[6 : 6 + company_prefix_length]
+        if not digits.isnumeric():
+            raise ConvertException(message=f"Invalid company prefix {digits}")
+
         chars = gs1_element_string[6 + company_prefix_length :]
         chars = revert_uri_escapes(chars)
 
diff --git a/epcpy/epc_schemes/ginc.py b/epcpy/epc_schemes/ginc.py
index 175ef3d..3040ced 100644
--- a/epcpy/epc_schemes/ginc.py
+++ b/epcpy/epc_schemes/ginc.py
@@ -99,6 +99,9 @@ class GINC(GS1Keyed):
             )
 
         digits = gs1_element_string[5 : 5 + company_prefix_length]
+        if not digits.isnumeric():
+            raise ConvertException(message=f"Invalid company prefix {digits}")
+
         chars = gs1_element_string[5 + company_prefix_length :]
         chars = revert_uri_escapes(chars)
 
-- 
2.43.0


From 76f99cdd9aa7cec43233f69f1694e625f71aea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:40 +0000
Subject: [PATCH 21/22] fix: refuse a tag URI without filter that has text
 after a further colon

---
 epcpy/epc_schemes/base_scheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/base_scheme.py b/epcpy/epc_schemes/base_scheme.py
index c951c98..1d80327 100644
--- a/epcpy/epc_schemes/base_scheme.py
+++ b/epcpy/epc_schemes/base_scheme.py
@@ -191,7 +191,7 @@ class TagEncodable(EPCScheme):
         if includes_filter:
             value = ".".join(":".join(epc_tag_uri.split(":")[3:]).split(".")[1:])
         else:
-            value = epc_tag_uri.split(":")[4]
+            value = ":".join(epc_tag_uri.split(":")[4:])
 
         return cls(f"urn:epc:id:{epc_scheme.split('-')[0]}:{value}")
 
-- 
2.43.0


From a0f53c97b0815e69028ad60f02eb19b2a6824e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:43:04 +0000
Subject: [PATCH 22/22] fix: refuse CPI-96 tags whose reference number exceeds
 the digits allowed

---
 epcpy/utils/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 6f6211b..53107e6 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -369,7 +369,9 @@ def decode_partition_table(
 
     if not C < pow(10, partition["L"]):
         raise ConvertException(message=f"Company prefix length too large")
-    if compare_D and not binary_to_int(D_bin) < pow(10, partition["K"]):
+    if (compare_D or unpadded_partition) and not binary_to_int(D_bin) < pow(
+        10, partition["K"]
+    ):
         raise ConvertException(message=f"Item reference length too large")
 
     return f"{C:>0{partition['L']}}.{D:>0{partition['K'] if compare_D else 0}}"
-- 
2.43.0

