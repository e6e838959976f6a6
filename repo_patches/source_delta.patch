From 70d6d5606162cf8c3b930bfc4ac3861fc2978ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 01/74] fix: compute integer bit lengths exactly

---
 pgp/packets/packets.py    | 2 +-
 pgp/transferrable_keys.py | 3 +--
 pgp/utils.py              | 8 ++++----
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 6fe02af..567d6c1 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -968,7 +968,7 @@ class SecretKeyPacket(PublicKeyPacket):
         elif version in (2, 3):
             encrypted_data = bytearray()
             for i in values:
-                bits_required = int(math.floor(float(math.log(i, 2)))) + 1
+                bits_required = i.bit_length()
                 bytes_required = int(math.ceil(bits_required / 8.0))
                 encrypted_data.extend(utils.int_to_2byte(bytes_required))
                 cipher.sync()
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 5d9b372..61627e9 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -16,7 +16,6 @@
 
 import datetime
 import email.utils
-import math
 import time
 import weakref
 
@@ -323,7 +322,7 @@ class BasePublicKey(SignedMixin):
         elif self.public_key_algorithm in (16, 20):
             n = self.prime_p
 
-        return int(math.ceil(float(math.log(n, 2))))
+        return n.bit_length()
 
     @property
     def key_id(self):
diff --git a/pgp/utils.py b/pgp/utils.py
index 8378b9e..38c7024 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -113,7 +113,7 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
         return secret_key.sign(sig_string, k)
     elif pub_algorithm_type == 17:
         q = secret_key.q
-        qbits = int(math.floor(float(math.log(q, 2)))) + 1
+        qbits = q.bit_length()
         qbytes = int(math.ceil(qbits / 8.0))
         if k is None:
             k = random.StrongRandom().randint(1, q - 1)
@@ -139,7 +139,7 @@ def verify_hash(pub_algorithm_type, public_key, hash_, values):
     elif pub_algorithm_type == 17:
         # DSA
         q = public_key.q
-        qbits = int(math.floor(float(math.log(q, 2)))) + 1
+        qbits = q.bit_length()
         qbytes = int(math.ceil(qbits / 8.0))
 
         digest = hash_.digest()
@@ -560,7 +560,7 @@ def mpi_to_int(bytes_, offset):
 
 
 def int_to_bytes(i):
-    bits_required = int(math.floor(float(math.log(i, 2)))) + 1
+    bits_required = i.bit_length()
     bytes_required = int(math.ceil(bits_required / 8.0))
     result = bytearray(
         [(i >> (j * 8)) & 0xff
@@ -644,7 +644,7 @@ def int_to_mpi(i):
         raise ValueError(i)
     elif i == 0:
         return bytearray([0, 0])
-    bits_required = int(math.floor(float(math.log(i, 2)))) + 1
+    bits_required = i.bit_length()
     bytes_required = int(math.ceil(bits_required / 8.0))
     result = bytearray() + int_to_2byte(bits_required)
     for b in range(bytes_required - 1, -1, -1):
-- 
2.43.0


From 3d46fac8082f2b69c59ec2f4b96af48ea8829ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 02/74] fix: write the length octet of empty new-format packets

---
 pgp/packets/packets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 567d6c1..16c7767 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -129,17 +129,19 @@ class Packet(object):
             offset = 0
             tag += 0x40 + packet_type
             result = bytearray([tag])
-            while remaining:
+            while True:
                 # "An implementation MAY use Partial Body Lengths for data
                 #  packets, be they literal, compressed, or encrypted."
                 allow_partial = self.type in constants.DATA_TYPES
                 packet_length_bytes, remaining = \
                     utils.new_packet_length_to_bytes(
-                            data_length,
+                            remaining,
                             allow_partial)
                 result.extend(packet_length_bytes)
                 result.extend(data[offset:data_length - remaining])
                 offset = data_length - remaining
+                if not remaining:
+                    break
 
         else:
             tag += (packet_type << 2)
-- 
2.43.0


From 7fe3aef2af49826fcac0ff73cd7676f073f68314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 03/74] fix: use the four-octet old-format length for bodies of
 16 MiB and more

---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 38c7024..42b1a1c 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -765,7 +765,7 @@ def old_packet_length_to_bytes(data_length):
         length_type = 1
         length_bytes = [data_length >> 8,
                         data_length & 0xff]
-    elif data_length < 16777216:
+    elif data_length <= MAX_PACKET_LENGTH:
         length_type = 2
         length_bytes = [data_length >> 24,
                         (data_length >> 16) & 0xff,
-- 
2.43.0


From cf6aaa7755bdaa83e2c21504d2786d05da461a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 04/74] fix: read partial and indeterminate body lengths from
 streams

---
 pgp/packets/packets.py | 50 +++++++++++++++++++-----------------------
 pgp/utils.py           |  2 +-
 2 files changed, 23 insertions(+), 29 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 16c7767..11eac9a 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1623,36 +1623,30 @@ def packet_from_packet_stream(fh):
     """
 
     packet_data = bytearray()
-    incomplete = True
-    previous_tag = None
-    previous_header_type = None
-    while incomplete:
-        first = ord(fh.read(1))
-        tag = first & 0x3f
-        if previous_tag is not None:
-            if tag != previous_tag:
-                # TODO: complete message
-                raise ValueError()
-        previous_tag = tag
-        header_type = (
-                constants.NEW_PACKET_HEADER_TYPE
-                if bool(first & 0x40)
-                else constants.OLD_PACKET_HEADER_TYPE
-            )
-        if previous_header_type is not None:
-            if header_type != previous_header_type:
-                # TODO: complete message
-                raise ValueError()
-        if header_type == constants.NEW_PACKET_HEADER_TYPE:
+    first = ord(fh.read(1))
+    tag = first & 0x3f
+    header_type = (
+            constants.NEW_PACKET_HEADER_TYPE
+            if bool(first & 0x40)
+            else constants.OLD_PACKET_HEADER_TYPE
+        )
+    if header_type == constants.OLD_PACKET_HEADER_TYPE:
+        tag >>= 2
+        fh.seek(fh.tell() - 1)
+        data_length = utils.old_packet_length_from_stream(fh)
+        if data_length is None:
+            # Indeterminate length, the body extends to the end of the stream.
+            packet_data.extend(fh.read())
+        else:
+            packet_data.extend(fh.read(data_length))
+    else:
+        # Only the first chunk is preceded by a tag, the others just have their
+        # own length header.
+        incomplete = True
+        while incomplete:
             data_length, incomplete = \
                 utils.new_packet_length_from_stream(fh)
-        else:
-            tag >>= 2
-            fh.seek(fh.tell() - 1)
-            data_length = utils.old_packet_length_from_stream(fh)
-            incomplete = False
-
-        packet_data.extend(fh.read(data_length))
+            packet_data.extend(fh.read(data_length))
 
     cls = PACKET_TYPES.get(tag, Packet)
 
diff --git a/pgp/utils.py b/pgp/utils.py
index 42b1a1c..67632be 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -665,7 +665,7 @@ def old_packet_length_from_stream(fh):
         length = long_to_int(bytearray(fh.read(4)), 0)
     else:
         # with & 3 and the other cases, this has to be 3.
-        raise ValueError
+        length = None
     return length
 
 
-- 
2.43.0


From e95a13683012e3d95256d5591381b58604f4495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 05/74] fix: write and keep unsupported armor headers

---
 pgp/armor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/armor.py b/pgp/armor.py
index 3ae3616..b138dae 100644
--- a/pgp/armor.py
+++ b/pgp/armor.py
@@ -168,7 +168,7 @@ class ASCIIArmor(object):
                 repr(header_line), repr(tail_line)))
 
         return cls(data_type, data, part, total_parts, version, comment,
-                   message_id, hash_algorithms, charset)
+                   message_id, hash_algorithms, charset, extra_headers)
 
     def __init__(self, data_type, data, part=None, total_parts=None,
                  version=None, comment=None, message_id=None,
@@ -232,7 +232,7 @@ class ASCIIArmor(object):
             result_lines.append(
                 'Charset: {charset}'.format(charset=self.charset))
         if self.extra_headers is not None:
-            for k, v in self.extra_headers:
+            for k, v in self.extra_headers.items():
                 result_lines.append('{0}: {1}'.format(k, v))
 
         result_lines.append('')
-- 
2.43.0


From 0ea3ed5a2c6e422486b95516207c8e146734fab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 06/74] fix: recognise the wild card key ID of session key
 packets

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 11eac9a..6666e47 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -167,7 +167,7 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
         #  card" or "speculative" Key ID.  In this case, the receiving
         #  implementation would try all available private keys, checking for a
         #  valid decrypted session key."
-        if key_id == b'0' * 16:
+        if key_id == '0' * 16:
             key_id = None
         offset += 8
         public_key_algorithm = int(data[offset])
-- 
2.43.0


From d03325217ae46cd342e3de5adcecf4c82846d9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 07/74] fix: read the whole key ID of one-pass signature
 packets

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 6666e47..a7fd2b0 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -643,7 +643,7 @@ class OnePassSignaturePacket(Packet):
         offset += 1
         public_key_algorithm = int(data[offset])
         offset += 1
-        key_id = utils.bytearray_to_hex(data, offset, 8)
+        key_id = utils.bytearray_to_hex(data, offset, 16)
         offset += 8
         nested = data[offset]
         offset += 1
-- 
2.43.0


From 6fe53740635211c0a95133c900bd853348bd654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 08/74] fix: make marker packets constructible

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index a7fd2b0..be598ba 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1224,7 +1224,7 @@ class MarkerPacket(Packet):
     def __init__(self, header_format, content, old_literal=False):
         Packet.__init__(self, header_format, constants.MARKER_PACKET_TYPE)
         self.old_literal = old_literal
-        self.content = content
+        self._content = content
 
     def __eq__(self, other):
         return (
-- 
2.43.0


From a52586ed64fe52ae7fe7a8c44f9e023d74fb67c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 09/74] fix: write parsed literal packets and non-ASCII file
 names

---
 pgp/packets/packets.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index be598ba..1c9fcec 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -14,9 +14,9 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
+import datetime
 import math
 import os
-import time
 import warnings
 
 from Crypto import Random
@@ -1246,7 +1246,7 @@ class LiteralDataPacket(Packet):
         filename = data[offset:offset + filename_length]
         # "Unless otherwise specified, the character set for text is the
         #  UTF-8"
-        filename = filename.decode('utf8', 'replace')
+        filename = filename.decode('utf8', 'surrogateescape')
         offset += filename_length
         time = utils.long_to_int(data, offset)
         offset += 4
@@ -1296,11 +1296,14 @@ class LiteralDataPacket(Packet):
         elif self.data_format not in (b'b', b't', b'u'):
             raise ValueError
         data = bytearray(self.data_format)
-        data.append(int(len(self.filename)))
         # "Unless otherwise specified, the character set for text is the
         #  UTF-8"
-        data.extend(self.filename.encode('utf8', 'replace'))
-        timestamp = int(time.mktime(self.time.timetuple()))
+        filename = self.filename.encode('utf8', 'surrogateescape')
+        data.append(len(filename))
+        data.extend(filename)
+        timestamp = self.time
+        if isinstance(timestamp, datetime.datetime):
+            timestamp = int(timestamp.timestamp())
         data.extend(utils.int_to_4byte(timestamp))
         content = self.data
         if self.data_format in (b't', b'u'):
-- 
2.43.0


From 51db4ead62fc6194f86f0575fc796f5841be4428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 10/74] fix: keep the octets of user IDs that are not UTF-8

---
 pgp/packets/packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 1c9fcec..9d16280 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1366,7 +1366,7 @@ class UserIDPacket(Packet):
 
     @classmethod
     def from_packet_content(cls, header_format, type_, data):
-        result = cls(header_format, data.decode('utf8', 'replace'))
+        result = cls(header_format, data.decode('utf8', 'surrogateescape'))
         result._content = data
         return result
 
@@ -1387,7 +1387,7 @@ class UserIDPacket(Packet):
 
     @property
     def content(self):
-        return self.user_id.encode('utf8', 'replace')
+        return bytearray(self.user_id.encode('utf8', 'surrogateescape'))
 
     def get_content_for_signature_hash(self, signature_version):
         result = bytearray()
-- 
2.43.0


From f5219e7971c2760f168b43124021ecfba6f3226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 11/74] fix: read session keys longer than the key that
 encrypts them

---
 pgp/packets/packets.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 9d16280..11050a9 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -536,11 +536,9 @@ class SymmetricKeyEncryptedSessionKeyPacket(Packet):
         s2k_specification, offset = s2k.parse_s2k_bytes(symmetric_algorithm,
                                                         data,
                                                         offset)
-        encrypted_session_key_length = \
-            utils.symmetric_cipher_key_lengths.get(symmetric_algorithm)
-        # + 1 for the symmetric algorithm
-        encrypted_session_key = \
-            data[offset:offset + encrypted_session_key_length + 1]
+        # The session key may be for another algorithm than the one it is
+        # encrypted with, its length is whatever remains.
+        encrypted_session_key = data[offset:] or None
         result = cls(header_format, version, symmetric_algorithm,
                      s2k_specification, encrypted_session_key)
         result._content = data
-- 
2.43.0


From 6a5e0d9fa45462752ecb7bba75c9d2a0af952d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 12/74] fix: keep the data of unknown user attribute subpackets

---
 pgp/packets/user_attribute_subpackets.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/user_attribute_subpackets.py b/pgp/packets/user_attribute_subpackets.py
index 8a9185a..1bd6ad8 100644
--- a/pgp/packets/user_attribute_subpackets.py
+++ b/pgp/packets/user_attribute_subpackets.py
@@ -22,20 +22,22 @@ class UserAttributeSubpacket(object):
 
     @classmethod
     def from_subpacket_content(cls, sub_type, sub_data):
-        return cls(sub_type)
+        return cls(sub_type, sub_data)
 
-    def __init__(self, sub_type):
+    def __init__(self, sub_type, data=b''):
         self.sub_type = sub_type
+        self.data = data
 
     def __eq__(self, other):
         return (
             self.__class__ == other.__class__
             and self.sub_type == other.sub_type
+            and self.data == other.data
             )
 
     @property
     def content(self):
-        return bytearray()
+        return bytearray(self.data)
 
     def __bytes__(self):
         data = self.content
-- 
2.43.0


From 3f0dd5fd78ee7b6295f35d147aedf7f888d4bbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 13/74] fix: keep the octets of trust packets in other formats

---
 pgp/packets/packets.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 11050a9..28df732 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1329,19 +1329,22 @@ class TrustPacket(Packet):
                 raise ValueError
 
         result = cls(header_format, trust_value, sig_cache)
-        result._content = data
+        result.other_data = bytearray(data[len(result.content):])
         return result
 
     def __init__(self, header_format, trust_value, sig_cache=None):
         Packet.__init__(self, header_format, constants.TRUST_PACKET_TYPE)
         self.trust_value = trust_value
         self.sig_cache = sig_cache
+        # Octets of other implementations' formats
+        self.other_data = bytearray()
 
     def __eq__(self, other):
         return (
             super(TrustPacket, self).__eq__(other)
             and self.trust_value == other.trust_value
             and self.sig_cache == other.sig_cache
+            and self.other_data == other.other_data
             )
 
     @property
@@ -1357,6 +1360,7 @@ class TrustPacket(Packet):
         data = bytearray([self.trust_value])
         if self.sig_cache is not None:
             data.append(self.sig_cache)
+        data.extend(self.other_data)
         return data
 
 
-- 
2.43.0


From a6903bd85d39f8747c3549e45a93f70aec792e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 14/74] fix: keep the octets of parsed signature subpackets

---
 pgp/packets/signature_subpackets.py | 36 +++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 6c26b6c..7952e52 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -23,13 +23,20 @@ from pgp.packets import constants
 
 class SignatureSubpacket(object):
 
+    # The octets this subpacket was read from and what we would have written
+    # instead. Signatures are made over these octets so they must not change
+    # unless the values do.
+    _parsed_data = None
+    _parsed_values = None
+
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        return cls(type_, critical)
+        return cls(type_, critical, sub_data)
 
-    def __init__(self, type_, critical):
+    def __init__(self, type_, critical, data=b''):
         self.type = type_
         self.critical = critical
+        self.data = data
 
     def __eq__(self, other):
         return (
@@ -42,10 +49,16 @@ class SignatureSubpacket(object):
 
     @property
     def content(self):
-        return bytearray()
+        return bytearray(self.data)
+
+    def keep_parsed_data(self, data):
+        self._parsed_data = bytes(data)
+        self._parsed_values = (self.type, self.critical, bytes(self.content))
 
     def __bytes__(self):
         data = self.content
+        if self._parsed_values == (self.type, self.critical, bytes(data)):
+            return self._parsed_data
         data_len = len(data) + 1  # For the type
         result = bytearray()
         packet_length_bytes, _ = \
@@ -640,9 +653,13 @@ SIGNATURE_SUBPACKET_TYPES = {
 
 
 def signature_subpacket_from_data(data, offset=0):
-    offset, length, partial = utils.new_packet_length(data, offset)
-    # TODO: smarter error
-    assert not partial
+    start = offset
+    if 224 <= data[offset] < 255:
+        # Subpackets have no partial lengths, this is a two-octet length
+        length = utils.short_to_int(data, offset) - (192 << 8) + 192
+        offset += 2
+    else:
+        offset, length, _ = utils.new_packet_length(data, offset)
     tag = data[offset]
     subpacket_type = tag & 0x7f
     critical = bool(tag & 0x80)
@@ -651,7 +668,6 @@ def signature_subpacket_from_data(data, offset=0):
     sub_data = data[offset:offset + length]
     offset += length
     cls = SIGNATURE_SUBPACKET_TYPES.get(subpacket_type, SignatureSubpacket)
-    return (
-        cls.from_subpacket_content(subpacket_type, critical, sub_data),
-        offset
-        )
+    subpacket = cls.from_subpacket_content(subpacket_type, critical, sub_data)
+    subpacket.keep_parsed_data(data[start:offset])
+    return subpacket, offset
-- 
2.43.0


From 92b64b3b605ac65bfe87f43ebab3408d9e733706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 15/74] fix: null-terminate regular expression subpackets

---
 pgp/packets/signature_subpackets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 7952e52..5a80c64 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -154,7 +154,8 @@ class RegularExpressionSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.pattern.encode('ascii', 'replace'))
+        # Null-terminated
+        return bytearray(self.pattern.encode('ascii', 'replace') + b'\0')
 
 
 class RevocableSubpacket(SignatureSubpacket):
-- 
2.43.0


From bf3b7118d7496eb0aeb306c58284976d42278e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 16/74] fix: read and write the fingerprints of revocation key
 subpackets

---
 pgp/packets/signature_subpackets.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 5a80c64..8141a43 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -201,7 +201,7 @@ class AdditionalRecipientRequestSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         strong_request = bool(sub_data[0] & 0x80)
         public_key_algorithm = sub_data[1]
-        fingerprint = utils.bytearray_to_hex(sub_data, 2, 20)
+        fingerprint = utils.bytearray_to_hex(sub_data, 2, 40)
         return cls(critical, strong_request, public_key_algorithm,
                    fingerprint)
 
@@ -252,11 +252,11 @@ class RevocationKeySubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) == 22
-        tag = sub_data
+        tag = sub_data[0]
         assert tag & 0x80
         sensitive = bool(tag & 0x40)
         public_key_algorithm = int(sub_data[1])
-        fingerprint = utils.bytearray_to_hex(sub_data, 2, 20)
+        fingerprint = utils.bytearray_to_hex(sub_data, 2, 40)
         return cls(critical, fingerprint, public_key_algorithm,
                    sensitive=sensitive)
 
@@ -265,7 +265,7 @@ class RevocationKeySubpacket(SignatureSubpacket):
 
         if isinstance(fingerprint, (bytes, bytearray)):
             assert len(fingerprint) == 20
-            fingerprint = utils.bytearray_to_hex(fingerprint, 0, 20)
+            fingerprint = utils.bytearray_to_hex(fingerprint, 0, 40)
         else:
             assert len(fingerprint) == 40
         SignatureSubpacket.__init__(
@@ -277,10 +277,8 @@ class RevocationKeySubpacket(SignatureSubpacket):
     @property
     def content(self):
         tag = 0x80 + (0x40 if self.sensitive else 0x00)
-        data = bytearray(
-                        [tag, int(self.public_key_algorithm)] +
-                        utils.bytearray_to_hex(self.fingerprint, 20)
-                    )
+        data = bytearray([tag, int(self.public_key_algorithm)])
+        data.extend(utils.hex_to_bytes(self.fingerprint, 20))
         return data
 
 
-- 
2.43.0


From 60d239cae65e892d06d67f6668a848381b7e0d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 17/74] fix: read the human-readable flag of notations

---
 pgp/packets/signature_subpackets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 8141a43..b08cb30 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -313,7 +313,7 @@ class NotationSubpacket(SignatureSubpacket):
         offset += 4
         assert not any(flags[1:])
         assert not flags[0] & 0x7f
-        human_readable = 0x80
+        human_readable = bool(flags[0] & 0x80)
         name_length = utils.short_to_int(sub_data, offset)
         offset += 2
         value_length = utils.short_to_int(sub_data, offset)
-- 
2.43.0


From f96a036ad1a16da553cc4132bc194d45b4dc8850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 18/74] fix: read the whole hash of signature target subpackets

---
 pgp/packets/signature_subpackets.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index b08cb30..4c71e93 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -561,7 +561,7 @@ class TargetSubpacket(SignatureSubpacket):
             hash_length = len(sub_data) - 2
         else:
             assert hash_length == len(sub_data) - 2
-        hash_ = utils.bytearray_to_hex(sub_data, 2, len(sub_data) - 2)
+        hash_ = utils.bytearray_to_hex(sub_data, 2, hash_length * 2)
         return cls(critical, public_key_algorithm, hash_algorithm, hash_,
                    hash_length=hash_length)
 
@@ -584,11 +584,12 @@ class TargetSubpacket(SignatureSubpacket):
         if hash_length is None:
             hash_length = self.hash_length
 
-        return bytearray([
+        data = bytearray([
                             int(self.public_key_algorithm),
                             int(self.hash_algorithm),
-                        ] + utils.hex_to_bytes(self.hash, hash_length)
-                    )
+                        ])
+        data.extend(utils.hex_to_bytes(self.hash, hash_length))
+        return data
 
 
 class EmbeddedSignatureSubpacket(SignatureSubpacket):
-- 
2.43.0


From 97b305f9dd66f21aa5217e5d2516ebcca3f89f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 19/74] fix: accept signer's user IDs that are not UTF-8

---
 pgp/packets/signature_subpackets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 4c71e93..b4f0b8b 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -491,7 +491,7 @@ class UserIDSubpacket(SignatureSubpacket):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        user_id = sub_data.decode('utf8')
+        user_id = sub_data.decode('utf8', 'replace')
         return cls(critical, user_id)
 
     def __init__(self, critical, user_id):
-- 
2.43.0


From c24d974e45aead6053737cbc5a3cd47825ba19d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 20/74] fix: parse, write and compare version 3 signature
 packets

---
 pgp/packets/packets.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 28df732..e3643a0 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -331,7 +331,7 @@ class SignaturePacket(Packet):
             creation_time = utils.long_to_int(data, offset)
             offset += 4
 
-            key_id = utils.bytearray_to_hex(data, offset, 8)
+            key_id = utils.bytearray_to_hex(data, offset, 16)
             offset += 8
 
             public_key_algorithm = data[offset]
@@ -424,19 +424,19 @@ class SignaturePacket(Packet):
         self.hash_algorithm = hash_algorithm
         self.hash2 = hash2
         self.signature_values = signature_values
-        if version in (2, 3):
-            self.creation_time = creation_time
-            self.key_id = key_id
-        elif version >= 4:
-            if hashed_subpackets is None:
-                hashed_subpackets = []
-            if unhashed_subpackets is None:
-                unhashed_subpackets = []
-            self.hashed_subpackets = hashed_subpackets
-            self.unhashed_subpackets = unhashed_subpackets
-        else:
+        if version < 2:
             # TODO: message
             raise ValueError()
+        # Version 2 and 3 only
+        self.creation_time = creation_time
+        self.key_id = key_id
+        # Version 4 and above only
+        if hashed_subpackets is None:
+            hashed_subpackets = []
+        if unhashed_subpackets is None:
+            unhashed_subpackets = []
+        self.hashed_subpackets = hashed_subpackets
+        self.unhashed_subpackets = unhashed_subpackets
 
     def __eq__(self, other):
         return (
@@ -447,6 +447,8 @@ class SignaturePacket(Packet):
             and self.hash_algorithm == other.hash_algorithm
             and self.hash2 == other.hash2
             and self.signature_values == other.signature_values
+            and self.creation_time == other.creation_time
+            and self.key_id == other.key_id
             and set(self.hashed_subpackets) == set(other.hashed_subpackets)
             and set(self.unhashed_subpackets) == set(other.unhashed_subpackets)
             )
@@ -476,7 +478,7 @@ class SignaturePacket(Packet):
             data.append(0x05)
             data.append(self.signature_type)
             data.extend(utils.int_to_4byte(self.creation_time))
-            data.extend(self.key_id)
+            data.extend(utils.hex_to_bytes(self.key_id, 8))
             data.append(self.public_key_algorithm)
             data.append(self.hash_algorithm)
         else:
-- 
2.43.0


From c0a7712c21c815dd8b57fc4c637d43194b0a870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 21/74] fix: parse, write, decrypt and encrypt every form of
 secret key packet

---
 pgp/packets/packets.py | 275 +++++++++++++++++------------------------
 1 file changed, 111 insertions(+), 164 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index e3643a0..4193edb 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -799,7 +799,9 @@ class PublicKeyPacket(Packet):
             data.extend(utils.int_to_mpi(self.group_generator))
             data.extend(utils.int_to_mpi(self.key_value))
         else:
-            raise NotImplemented
+            raise NotImplementedError((
+                'Unknown public key algorithm {0}'
+                ).format(self.public_key_algorithm))
 
         return data
 
@@ -851,19 +853,20 @@ class SecretKeyPacket(PublicKeyPacket):
         s2k_usage = int(data[offset])
         offset += 1
         s2k_specification = None
-        if s2k_usage == 0:
-            # not encrypted
-            symmetric_algorithm = 0
-        elif s2k_usage in (254, 255):
-            symmetric_algorithm = data[offset]
+        if s2k_usage in (254, 255):
+            symmetric_algorithm = int(data[offset])
             offset += 1
             s2k_specification, offset = \
                 s2k.parse_s2k_bytes(symmetric_algorithm, data, offset)
         else:
+            # 0, not encrypted, or an algorithm whose key is the MD5 digest
+            # of the passphrase
             symmetric_algorithm = s2k_usage
 
-        # 101 is GnuPG's dummy & smartcard mode
-        if s2k_usage not in (0, 101):
+        iv = None
+        # GnuPG's dummy & smartcard modes have none
+        if symmetric_algorithm and not isinstance(s2k_specification,
+                                                  s2k.GnuPGS2K):
             block_length = utils.symmetric_cipher_block_lengths.get(
                                 symmetric_algorithm, None)
             if block_length is None:
@@ -872,15 +875,8 @@ class SecretKeyPacket(PublicKeyPacket):
             offset += block_length
 
         encrypted_portion = data[offset:]
-        if s2k_usage in (0, 255):
-            checksum = True
-            hash_ = False
-        elif s2k_usage == 254:
-            hash_ = True
-            checksum = False
-        else:
-            checksum = False
-            hash_ = False
+        hash_ = s2k_usage == 254
+        checksum = not hash_
 
         values += (s2k_specification, symmetric_algorithm, iv,
                    encrypted_portion, checksum, hash_)
@@ -895,19 +891,11 @@ class SecretKeyPacket(PublicKeyPacket):
                  prime_p=None, prime_q=None, multiplicative_inverse_u=None,
                  exponent_x=None):
 
-        if None in (s2k_specification, iv, encrypted_portion):
-            raise ValueError
-        Packet.__init__(self, header_type, constants.SECRET_KEY_PACKET_TYPE)
-        self.version = version
-        self.creation_time = creation_time
-        self.public_key_algorithm = public_key_algorithm
-        self.expiration_days = expiration_days
-        self.modulus = modulus
-        self.exponent = exponent
-        self.prime = prime
-        self.group_generator = group_generator
-        self.group_order = group_order
-        self.key_value = key_value
+        PublicKeyPacket.__init__(
+            self, header_type, version, creation_time, public_key_algorithm,
+            expiration_days, modulus, exponent, prime, group_order,
+            group_generator, key_value)
+        self.type = constants.SECRET_KEY_PACKET_TYPE
         self.s2k_specification = s2k_specification
         self.symmetric_algorithm = symmetric_algorithm
         self.iv = iv
@@ -932,11 +920,20 @@ class SecretKeyPacket(PublicKeyPacket):
             and self.hash == other.hash
             )
 
+    @classmethod
+    def get_key(cls, s2k_specification, symmetric_algorithm, passphrase):
+        """Returns the key for the encrypted portion."""
+
+        if not symmetric_algorithm:
+            return None
+        if s2k_specification is None:
+            # "Use the Simple S2K algorithm using MD5"
+            s2k_specification = s2k.SimpleS2K(1, symmetric_algorithm)
+        return s2k_specification.to_key(passphrase)
+
     def decrypt(self, passphrase):
-        if self.s2k_specification is not None:
-            key = self.s2k_specification.to_key(passphrase)
-        else:
-            key = passphrase
+        key = self.get_key(self.s2k_specification, self.symmetric_algorithm,
+                           passphrase)
         values = self.decrypt_encrypted_key_portion(
                     self.version, key, self.symmetric_algorithm, self.iv,
                     self.encrypted_portion, self.checksum, self.hash)
@@ -953,106 +950,89 @@ class SecretKeyPacket(PublicKeyPacket):
         else:
             raise ValueError
 
-    @classmethod
-    def encrypt_key_values(cls, version, values, key, symmetric_algorithm,
-                           iv, checksum=False, hash_=False):
+    @staticmethod
+    def _crypt(name, symmetric_algorithm, key, iv, data):
+        """Encrypt or decrypt all of the data in CFB mode."""
 
+        block_size = len(iv)
         cipher = utils.get_symmetric_cipher(
-                    symmetric_algorithm, key, utils.OPENPGP, iv,
-                    syncable=True)
+                    symmetric_algorithm, key, utils.CFB, iv)
+        padding = bytearray(-len(data) % block_size)
+        result = getattr(cipher, name)(bytes(data + padding))
+        return bytearray(result)[:len(data)]
 
-        unencrypted_data = bytearray()
-        for value in values:
-            unencrypted_data.extend(utils.int_to_mpi(value))
+    @classmethod
+    def _crypt_values(cls, name, version, symmetric_algorithm, key, iv, data):
+        """Encrypt or decrypt the key values and the checksum or hash that
+        follows them.
+        """
 
+        data = bytearray(data)
+        if not symmetric_algorithm:
+            return data
+        if iv is None:
+            raise ValueError('The secret key is stored elsewhere')
         if version >= 4:
-            encrypted_data = cipher.encrypt(unencrypted_data)
-        elif version in (2, 3):
-            encrypted_data = bytearray()
-            for i in values:
-                bits_required = i.bit_length()
-                bytes_required = int(math.ceil(bits_required / 8.0))
-                encrypted_data.extend(utils.int_to_2byte(bytes_required))
-                cipher.sync()
-                mpi_value_bytes = utils.int_to_bytes(i)
-                if len(mpi_value_bytes) < bytes_required:
-                    mpi_value_bytes = bytearray(
-                            [0] * (bytes_required - len(mpi_value_bytes))
-                        ) + mpi_value_bytes
-                encrypted_data.extend(cipher.encrypt(mpi_value_bytes))
-
-        if checksum:
-            checksum = utils.int_to_2byte(sum(unencrypted_data) & 0xffff)
-            if version >= 4:
-                encrypted_data.extend(cipher.encrypt(checksum))
-            else:
-                encrypted_data.extend(checksum)
+            return cls._crypt(name, symmetric_algorithm, key, iv, data)
+
+        # "With V3 keys, the MPI bit count prefix (i.e., the first two
+        #  octets) is not encrypted.  Only the MPI non-prefix data is
+        #  encrypted.  Furthermore, the CFB state is resynchronized at the
+        #  beginning of each new MPI value, so that the CFB block boundary
+        #  is aligned with the start of the MPI data."
+        result = bytearray()
+        iv = bytearray(iv)
+        offset = 0
+        # The checksum is not encrypted either
+        while offset < len(data) - 2:
+            mpi_length = utils.mpi_length(data, offset)
+            result.extend(data[offset:offset + 2])
+            offset += 2
+            mpi_data = data[offset:offset + mpi_length]
+            offset += mpi_length
+            mpi_result = cls._crypt(name, symmetric_algorithm, key, iv,
+                                    mpi_data)
+            result.extend(mpi_result)
+            if name == 'encrypt':
+                mpi_data = mpi_result
+            iv = (iv + mpi_data)[-len(iv):]
+        result.extend(data[offset:])
+        return result
+
+    @classmethod
+    def encrypt_key_values(cls, version, values, key, symmetric_algorithm,
+                           iv, checksum=False, hash_=False):
 
+        data = bytearray()
+        for value in values:
+            data.extend(utils.int_to_mpi(value))
         if hash_:
-            hash_ = SHA.new(unencrypted_data).digest()
-            encrypted_data.extend(cipher.encrypt(hash_))
-        return encrypted_data
+            data.extend(SHA.new(bytes(data)).digest())
+        else:
+            data.extend(utils.int_to_2byte(sum(data) & 0xffff))
+
+        return cls._crypt_values('encrypt', version, symmetric_algorithm, key,
+                                 iv, data)
 
     @classmethod
     def decrypt_encrypted_key_portion(cls, version, key, symmetric_algorithm,
                                       iv, encrypted_data, checksum=False,
                                       hash_=False):
 
-        sym_block_size = utils.symmetric_cipher_block_lengths.get(
-            symmetric_algorithm, 8)
-        if version >= 4:
-            cipher = utils.get_symmetric_cipher(
-                        symmetric_algorithm, key, utils.CFB, iv)
-            padding = bytearray([0x00] * (
-                sym_block_size - (len(encrypted_data) % sym_block_size)))
-            decrypted_data = cipher.decrypt(
-                bytes(encrypted_data + padding)
-                )[:-len(padding)]
-        elif version in (2, 3):
-            # "With V3 keys, the MPI bit count prefix (i.e., the first two
-            #  octets) is not encrypted.  Only the MPI non-prefix data is
-            #  encrypted.  Furthermore, the CFB state is resynchronized at the
-            #  beginning of each new MPI value, so that the CFB block boundary
-            #  is aligned with the start of the MPI data."
-
-            cipher = utils.get_symmetric_cipher(
-                        symmetric_algorithm, key, utils.CFB, iv,
-                        syncable=True)
-            offset = 0
-            decrypted_data = bytearray()
-            while offset < len(encrypted_data):
-                cipher.sync()
-                decrypted_data.extend(
-                        encrypted_data[offset:offset + 2])
-                mpi_length = utils.mpi_length(encrypted_data, offset)
-                offset += 2
-                encrypted_mpi_content = \
-                    encrypted_data[offset:offset + mpi_length]
-                offset += mpi_length
-                mpi_content = cipher.decrypt(encrypted_mpi_content)
-                decrypted_data.extend(mpi_content)
-        else:
-            raise ValueError
-
-        data_length = len(decrypted_data)
-        if checksum:
-            data_length -= 2
-            if version >= 4:
-                # With V4 keys, the checksum is encrypted like the
-                # algorithm-specific data.
-                expected_checksum = utils.short_to_int(
-                        cipher.decrypt(utils.int_to_2byte(decrypted_data[-2:]))
-                    )
-            actual_checksum = sum(decrypted_data[:-2]) & 0xffff
-            if actual_checksum != expected_checksum:
-                raise ValueError
+        decrypted_data = cls._crypt_values(
+            'decrypt', version, symmetric_algorithm, key, iv, encrypted_data)
 
         if hash_:
-            data_length -= 20
-            expected_hash = decrypted_data[-20:]
-            actual_hash = SHA.new(decrypted_data[:-20]).digest()
-            if bytes(expected_hash) != actual_hash:
-                raise ValueError
+            data_length = len(decrypted_data) - 20
+            expected = decrypted_data[data_length:]
+            actual = SHA.new(bytes(decrypted_data[:data_length])).digest()
+        else:
+            data_length = len(decrypted_data) - 2
+            expected = decrypted_data[data_length:]
+            actual = utils.int_to_2byte(
+                sum(decrypted_data[:data_length]) & 0xffff)
+        if data_length < 0 or expected != actual:
+            raise ValueError('Bad passphrase or damaged secret key')
 
         values = []
         offset = 0
@@ -1064,19 +1044,15 @@ class SecretKeyPacket(PublicKeyPacket):
 
     @property
     def content(self):
-        data = PublicKeyPacket.content.__get__(self)
+        data = self.public_content
         if self.s2k_specification is not None:
-            if self.checksum:
-                s2k_usage = 255
-            else:
-                s2k_usage = 254
-            data.append(s2k_usage)
-        data.append(self.symmetric_algorithm)
+            data.append(254 if self.hash else 255)
+        data.append(self.symmetric_algorithm or 0)
         if self.s2k_specification is not None:
             data.extend(bytes(self.s2k_specification))
-        if self.symmetric_algorithm != 0:
+        if self.iv is not None:
             data.extend(self.iv)
-        if self.encrypted_portion:
+        if self.encrypted_portion is not None:
             data.extend(self.encrypted_portion)
         else:
             if self.public_key_algorithm in (1, 2, 3):
@@ -1091,49 +1067,20 @@ class SecretKeyPacket(PublicKeyPacket):
             else:
                 raise ValueError
 
-            if self.s2k_specification is not None:
-                key = self.s2k_specification.to_key(self.passphrase)
-            else:
-                key = self.passphrase
-            encrypted_data = self.encrypt_key_values(
+            key = self.get_key(self.s2k_specification,
+                               self.symmetric_algorithm, self.passphrase)
+            data.extend(self.encrypt_key_values(
                         self.version, values, key, self.symmetric_algorithm,
-                        self.iv, s2k_usage in (0, 255), s2k_usage == 254)
-            data.extend(encrypted_data)
+                        self.iv, self.checksum, self.hash))
 
         return data
 
 
 class SecretSubkeyPacket(SecretKeyPacket):
 
-    def __init__(self, header_type, version, creation_time,
-                 public_key_algorithm, expiration_days=None, modulus=None,
-                 exponent=None, prime=None, group_order=None,
-                 group_generator=None, key_value=None, s2k_specification=None,
-                 symmetric_algorithm=None, iv=None, encrypted_portion=None,
-                 checksum=False, hash_=False, passphrase=None, exponent_d=None,
-                 prime_p=None, prime_q=None, multiplicative_inverse_u=None,
-                 exponent_x=None):
-
-        if None in (s2k_specification, iv, encrypted_portion):
-            raise ValueError
-        Packet.__init__(self, header_type,
-                        constants.SECRET_SUBKEY_PACKET_TYPE)
-        self.version = version
-        self.creation_time = creation_time
-        self.public_key_algorithm = public_key_algorithm
-        self.expiration_days = expiration_days
-        self.modulus = modulus
-        self.exponent = exponent
-        self.prime = prime
-        self.group_generator = group_generator
-        self.group_order = group_order
-        self.key_value = key_value
-        self.s2k_specification = s2k_specification
-        self.symmetric_algorithm = symmetric_algorithm
-        self.iv = iv
-        self.encrypted_portion = encrypted_portion
-        self.checksum = checksum
-        self.hash = hash_
+    def __init__(self, *args, **kwargs):
+        SecretKeyPacket.__init__(self, *args, **kwargs)
+        self.type = constants.SECRET_SUBKEY_PACKET_TYPE
 
 
 class CompressedDataPacket(Packet):
-- 
2.43.0


From fbeccccf064a4ecef28186db220c7ea845764ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 22/74] fix: compute the fingerprint and key ID of version 3
 key packets

---
 pgp/packets/packets.py | 5 +++++
 pgp/utils.py           | 8 ++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 4193edb..d0a3f80 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -818,6 +818,11 @@ class PublicKeyPacket(Packet):
 
     @property
     def key_id(self):
+        if self.version < 4:
+            n = self.modulus
+            if n is None:
+                n = self.prime
+            return utils.int_to_hex(n, 16)
         return self.fingerprint[-16:]
 
     @property
diff --git a/pgp/utils.py b/pgp/utils.py
index 67632be..afeb379 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -892,11 +892,11 @@ def key_packet_fingerprint(packet):
         md5 = MD5.new()
         # Key type must be RSA for v2 and v3 public keys
         if packet.public_key_algorithm in (1, 2, 3):
-            md5.update(int_to_bytes(packet.modulus_n))
-            md5.update(int_to_bytes(packet.exponent_e))
+            md5.update(bytes(int_to_bytes(packet.modulus)))
+            md5.update(bytes(int_to_bytes(packet.exponent)))
         elif packet.public_key_algorithm in (16, 20):
-            md5.update(int_to_bytes(packet.prime_p))
-            md5.update(int_to_bytes(packet.group_generator_g))
+            md5.update(bytes(int_to_bytes(packet.prime)))
+            md5.update(bytes(int_to_bytes(packet.group_generator)))
         fingerprint = md5.hexdigest().upper()
     elif packet.version >= 4:
         sha1 = SHA.new()
-- 
2.43.0


From 8715629a955a8cebdc3d71d9acf4055b0c9e43b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 23/74] fix: write GnuPG string-to-key specifiers

---
 pgp/s2k.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pgp/s2k.py b/pgp/s2k.py
index 9624abd..c783dae 100644
--- a/pgp/s2k.py
+++ b/pgp/s2k.py
@@ -161,7 +161,8 @@ class GnuPGS2K(SimpleS2K):
                         "Unexpected serial number length: %d" %
                         serial_len)
 
-            serial_number = utils.bytearray_to_hex(data, offset, serial_len)
+            serial_number = utils.bytearray_to_hex(
+                data, offset, serial_len * 2)
             offset += serial_len
         else:
             raise ValueError(
@@ -191,11 +192,9 @@ class GnuPGS2K(SimpleS2K):
         pass
 
     def __bytes__(self):
-        result = bytearray(
-                [self.hash_algorithm] +
-                b'GNU' +
-                [self.mode - 1000]
-                )
+        result = bytearray([101, self.hash_algorithm])
+        result.extend(b'GNU')
+        result.append(self.mode - 1000)
         if self.mode == 1002 and self.serial_number is not None:
             result.append(self.serial_number_length)
             result.extend(utils.hex_to_bytes(self.serial_number,
-- 
2.43.0


From d80e50c1219b89c7dc2800e6951503e11687a480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 24/74] fix: keep the exact creation time and the expiry of
 keys

---
 pgp/transferrable_keys.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 61627e9..97262b0 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -195,7 +195,7 @@ class BasePublicKey(SignedMixin):
         creation_time = datetime.datetime.fromtimestamp(packet.creation_time)
         public_key_algorithm = packet.public_key_algorithm
         expiration_days = packet.expiration_days
-        if version < 4 or expiration_days in (None, 0):
+        if version >= 4 or expiration_days in (None, 0):
             expiration_time = None
         else:
             expiration_time = \
@@ -220,12 +220,13 @@ class BasePublicKey(SignedMixin):
         return result
 
     def _to_packet_args(self, header_format=None):
-        creation_time = int(time.mktime(self.creation_time.timetuple()))
+        creation_time = int(self.creation_time.timestamp())
         expiration_days = None
         if self.version < 4:
+            expiration_days = 0
             expiration_time = self.expiration_time
             if expiration_time is not None:
-                expiration_days = (expiration_time - creation_time).days
+                expiration_days = (expiration_time - self.creation_time).days
 
         return (
             header_format, self.version, creation_time,
-- 
2.43.0


From 3494ca87ba177eabd13d68ac31628ad2b764ffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 25/74] fix: set the expiration time of version 4 keys

---
 pgp/transferrable_keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 97262b0..cdf65b2 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -296,7 +296,7 @@ class BasePublicKey(SignedMixin):
         if self.version in (2, 3):
             self._expiration_time = value
         elif self.version >= 4:
-            super(BasePublicKey, self).expiration_time = value
+            SignedMixin.expiration_time.fset(self, value)
 
     expiration_time = property(_get_expiration_time, _set_expiration_time)
 
-- 
2.43.0


From e6f3f31366f5abd9246da540b49c7873a646a53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 26/74] fix: keep the secret prime out of public keys and
 packets

---
 pgp/transferrable_keys.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index cdf65b2..615b653 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -231,7 +231,7 @@ class BasePublicKey(SignedMixin):
         return (
             header_format, self.version, creation_time,
             self.public_key_algorithm, expiration_days, self.modulus_n,
-            self.exponent_e, self.prime_p, self.group_order_q,
+            self.exponent_e, self._public_prime_p, self.group_order_q,
             self.group_generator_g, self.key_value_y
             )
 
@@ -300,6 +300,13 @@ class BasePublicKey(SignedMixin):
 
     expiration_time = property(_get_expiration_time, _set_expiration_time)
 
+    @property
+    def _public_prime_p(self):
+        if self.public_key_algorithm in (1, 2, 3):
+            # The prime of an unlocked RSA key is secret
+            return None
+        return self.prime_p
+
     @property
     def _public_key_obj(self):
         key_obj = None
@@ -464,7 +471,7 @@ class BaseSecretKey(BasePublicKey):
         key = self._PublicClass(
             self.version, self.public_key_algorithm, self.creation_time,
             self.expiration_time, self.modulus_n, self.exponent_e,
-            self.prime_p, self.group_generator_g, self.group_order_q,
+            self._public_prime_p, self.group_generator_g, self.group_order_q,
             self.key_value_y, self.signatures)
         key.packet_header_type = self.packet_header_type
         return key
@@ -656,7 +663,7 @@ class SecretSubkey(PublicSubkey, BaseSecretKey):
         key = self._PublicClass(
             self.primary_public_key, self.version, self.public_key_algorithm,
             self.creation_time, self.expiration_time, self.modulus_n,
-            self.exponent_e, self.prime_p, self.group_generator_g,
+            self.exponent_e, self._public_prime_p, self.group_generator_g,
             self.group_order_q, self.key_value_y, self.signatures)
         key.packet_header_type = self.packet_header_type
         return key
-- 
2.43.0


From b0534cb2049c99c16d44c4d94b30e17594dc2936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 27/74] fix: use 256-bit keys for Twofish

---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index afeb379..4aed058 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -85,7 +85,7 @@ symmetric_cipher_key_lengths = {
     7: 16,  # AES-128
     8: 24,  # AES-192
     9: 32,  # AES-256
-    10: 16,  # Twofish-256
+    10: 32,  # Twofish-256
     11: 16,  # Camellia-128
     12: 24,  # Camellia-192
     13: 32,  # Camellia-256
-- 
2.43.0


From 22e7ec0d1ab77e5927e9090416d6fb1cf0fdacbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 28/74] fix: give every cipher mode its IV and segment size

---
 pgp/utils.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 4aed058..82ec093 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -277,24 +277,19 @@ def get_symmetric_cipher(type_, key, mode, iv=None, segment_size=None,
     if segment_size is None and mode == blockalgo.MODE_CFB:
         segment_size = cipher.block_size * 8
 
+    args = [bytes(key), mode]
+    if iv is not None:
+        args.append(bytes(iv))
+    kwargs = {}
+    if segment_size:
+        kwargs['segment_size'] = segment_size
+
     if syncable and cipher not in (aidea, twofish, camellia):
         # We need to wrap the PyCrypto implementation so we can re-sync
         # for OpenPGP's weird CFB mode.
-        try:
-            return syncable_cipher_wrapper.new(cipher, bytes(key), mode,
-                                               IV=bytes(iv),
-                                               segment_size=segment_size)
-        except TypeError:
-            return syncable_cipher_wrapper.new(cipher, bytes(key), mode,
-                                               iv=bytes(iv),
-                                               segment_size=segment_size)
-
-    try:
-        return cipher.new(bytes(key), mode, IV=bytes(iv),
-                          segment_size=segment_size)
-    except TypeError:
-        return cipher.new(bytes(key), mode, iv=bytes(iv),
-                          segment_size=segment_size)
+        return syncable_cipher_wrapper.new(cipher, *args, **kwargs)
+
+    return cipher.new(*args, **kwargs)
 
 
 class NoopCompression(object):
-- 
2.43.0


From 9653a23cf07001732d6eb19f2797c136d44c7799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 29/74] fix: derive keys from short and long passphrases as the
 RFC says

---
 pgp/s2k.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pgp/s2k.py b/pgp/s2k.py
index c783dae..34efd37 100644
--- a/pgp/s2k.py
+++ b/pgp/s2k.py
@@ -1,5 +1,3 @@
-import math
-
 from pgp import utils
 
 
@@ -46,11 +44,12 @@ class SimpleS2K(object):
         hash_length = utils.hash_lengths.get(self.hash_algorithm)
         pass_ = 0
         result = bytearray()
-        # Length of content hashed on each iteration
-        len2 = len(passphrase) + 8
-        count = self.count
-        if count is None:
-            count = len2
+        # Content hashed on each iteration
+        content = bytes(self.salt) + bytes(passphrase)
+        # "the iteration count is not a count of hashes but of octets [...]
+        #  if it is less than the size of the passphrase plus salt, [they]
+        #  are hashed in their entirety."
+        count = max(self.count or 0, len(content))
 
         while (pass_ * hash_length) < required_length:
             # "If the hash size is less than the key size, multiple instances
@@ -66,9 +65,11 @@ class SimpleS2K(object):
 
             # Spec is actually pretty vague here - had to determine when the
             # salt really should be hashed from gcrypt/gnupg source.
-            for i in range(math.ceil(count / float(len2))):
-                to_write = min(len2, count - (len2 * i))
-                hash_.update((bytes(self.salt) + bytes(passphrase))[:to_write])
+            if content:
+                repeats, rest = divmod(count, len(content))
+                for i in range(repeats):
+                    hash_.update(content)
+                hash_.update(content[:rest])
 
             # "Once the passphrase is hashed, the output data from the
             #  multiple hashes is concatenated, first hash leftmost, to
-- 
2.43.0


From e23e34a853a553d8ee44feafce4fdbd850aa1c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 30/74] fix: unlock secret keys that are unprotected or use the
 legacy derivation

---
 pgp/packets/packets.py    |  2 ++
 pgp/transferrable_keys.py | 35 ++++++++++++++++++++++-------------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index d0a3f80..77c5f7d 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1044,6 +1044,8 @@ class SecretKeyPacket(PublicKeyPacket):
         while offset < data_length:
             mpi, offset = utils.mpi_to_int(decrypted_data, offset)
             values.append(mpi)
+        if offset != data_length:
+            raise ValueError('Damaged secret key')
 
         return values
 
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 615b653..982cbd8 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -382,7 +382,7 @@ class BasePublicKey(SignedMixin):
                                        long(self.group_generator_g),
                                        long(self.key_value_y)
                                        ))
-        elif self.public_key_algorithm in (1, 3):
+        elif self.public_key_algorithm in (1, 2, 3):
             key_obj = key_constructor((long(self.modulus_n),
                                        long(self.exponent_e)
                                        ))
@@ -501,7 +501,7 @@ class BaseSecretKey(BasePublicKey):
                                        long(self.key_value_y),
                                        long(self.exponent_x)
                                        ))
-        elif self.public_key_algorithm in (1, 3):
+        elif self.public_key_algorithm in (1, 2, 3):
             key_obj = key_constructor((long(self.modulus_n),
                                        long(self.exponent_e),
                                        long(self.exponent_d),
@@ -574,17 +574,22 @@ class BaseSecretKey(BasePublicKey):
 
         return sig
 
-    def unlock(self, passphrase):
-        if self.s2k_specification is not None:
-            # TODO: Check encoding
-            key = self.s2k_specification.to_key(passphrase.encode('utf8'))
-        else:
-            key = passphrase
-
+    def _get_secret_values(self, passphrase):
+        if isinstance(passphrase, str):
+            passphrase = passphrase.encode('utf8')
+        key = packets.SecretKeyPacket.get_key(
+                    self.s2k_specification, self.symmetric_algorithm,
+                    passphrase)
         values = packets.SecretKeyPacket.decrypt_encrypted_key_portion(
                     self.version, key, self.symmetric_algorithm, self.iv,
                     self.encrypted_portion, self.checksum, self.hash)
 
+        expected = 4 if self.public_key_algorithm in (1, 2, 3) else 1
+        if len(values) != expected:
+            raise ValueError('Damaged secret key')
+        return values
+
+    def _set_secret_values(self, values):
         if self.public_key_algorithm in (1, 2, 3):
             # RSA
             self.exponent_d = values[0]
@@ -598,7 +603,9 @@ class BaseSecretKey(BasePublicKey):
             raise ValueError
 
         self._locked = False
-        return
+
+    def unlock(self, passphrase):
+        self._set_secret_values(self._get_secret_values(passphrase))
 
     def lock(self):
         if self.public_key_algorithm in (1, 2, 3):
@@ -1102,9 +1109,11 @@ class TransferableSecretKey(BaseSecretKey, TransferablePublicKey):
         return key
 
     def unlock(self, passphrase):
-        super(TransferableSecretKey, self).unlock(passphrase)
-        for sk in self.subkeys:
-            sk.unlock(passphrase)
+        # Unlock all of the keys or none of them
+        keys = [self] + self.subkeys
+        values = [key._get_secret_values(passphrase) for key in keys]
+        for key, key_values in zip(keys, values):
+            key._set_secret_values(key_values)
 
     def lock(self):
         super(TransferableSecretKey, self).lock()
-- 
2.43.0


From c8b43faa21277884db6cca4d4c07573f5c23f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 31/74] fix: sign and verify text, bytes and canonical text
 documents

---
 pgp/message.py            |  6 +-----
 pgp/signature.py          |  5 ++++-
 pgp/transferrable_keys.py | 12 +++---------
 pgp/utils.py              | 23 +++++++++++++++++++++++
 4 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 0ad1295..8c238ba 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -17,7 +17,6 @@
 import abc
 import collections
 import datetime
-import re
 import six
 
 from Crypto import Random
@@ -30,9 +29,6 @@ from pgp.signature import BaseSignature
 from pgp import utils
 
 
-INCOMPLETE_CRLF = re.compile(b'(\r[^\n]|[^\r]\n)', re.M)
-
-
 class MessageSignature(BaseSignature):
 
     one_pass = None
@@ -184,7 +180,7 @@ class TextMessage(LiteralMessage):
     def to_signable_data(self, signature_type, signature_version=3):
         data = self.data.encode('utf8')
         if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
-            return INCOMPLETE_CRLF.sub(b'\r\n', data)
+            return utils.canonical_text(data)
         return data
 
 
diff --git a/pgp/signature.py b/pgp/signature.py
index 827a31f..cfa3b63 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -219,8 +219,11 @@ class BaseSignature(object):
                  issuer_key_id=None, hashed_subpackets=None,
                  unhashed_subpackets=None, current_time_fn=None):
 
-        if target:
+        try:
             self._target_ref = weakref.ref(target)
+        except TypeError:
+            # Text, bytes and None have no weak references
+            self._target_ref = lambda: target
         self.version = version
         self.signature_type = signature_type
         self.public_key_algorithm = public_key_algorithm
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 982cbd8..564d0bf 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -405,8 +405,8 @@ class BasePublicKey(SignedMixin):
 
         key_obj = self._get_key_obj()
         hash_ = utils.get_hash_instance(signature.hash_algorithm)
-        hash_.update(item.to_signable_data(signature.signature_type,
-                                           signature.version))
+        hash_.update(utils.get_signable_data(item, signature.signature_type,
+                                             signature.version))
         hash_.update(signature.to_signable_data(signature.signature_type,
                                                 signature.version))
         if hash_.digest()[:2] != signature.hash2:
@@ -528,13 +528,7 @@ class BaseSecretKey(BasePublicKey):
         key_obj = self._get_key_obj()
 
         hash_ = utils.get_hash_instance(hash_algorithm)
-        if isinstance(item, str):
-            hash_.update(item.encode('utf8'))
-        elif isinstance(item, bytes):
-            hash_.update(item)
-
-        else:
-            hash_.update(item.to_signable_data(signature_type, version))
+        hash_.update(utils.get_signable_data(item, signature_type, version))
         if isinstance(item, (BasePublicKey, UserID, UserAttribute)):
             SigClass = KeySignature
         else:
diff --git a/pgp/utils.py b/pgp/utils.py
index 82ec093..bdd890a 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -16,6 +16,7 @@
 
 import bz2
 import math
+import re
 import zlib
 
 from Crypto.Cipher import blockalgo
@@ -414,6 +415,15 @@ def get_compression_instance(type_, level=None):
     return instance
 
 
+LINE_ENDING = re.compile(b'\r\n|\r|\n')
+
+
+def canonical_text(data):
+    """Converts all line endings to <CR><LF>."""
+
+    return LINE_ENDING.sub(b'\r\n', data)
+
+
 def hash_key(data_to_hash, key_packet_data):
     """Adds key data to a hash for signature comparison."""
 
@@ -423,6 +433,19 @@ def hash_key(data_to_hash, key_packet_data):
     data_to_hash.extend(key_packet_data)
 
 
+def get_signable_data(item, signature_type, signature_version):
+    """Returns the data to hash for a signature of text, bytes or any object
+    that may be signed."""
+
+    if isinstance(item, str):
+        item = item.encode('utf8')
+    if isinstance(item, (bytes, bytearray)):
+        if signature_type == constants.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
+            item = canonical_text(bytes(item))
+        return item
+    return item.to_signable_data(signature_type, signature_version)
+
+
 def packet_type_from_first_byte(byte_):
     if byte_ & 0x7f:
         return byte_ & 0x3f
-- 
2.43.0


From f6d4b9a93b754b53ed345803516b7a6bc2ba89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 32/74] fix: verify signatures with leading zeros and refuse
 excess numbers

---
 pgp/utils.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index bdd890a..2857ab0 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -93,6 +93,11 @@ symmetric_cipher_key_lengths = {
     }
 
 
+def _key_byte_length(key):
+    # size() is the number of bits of the largest message
+    return key.size() // 8 + 1
+
+
 def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
     if pub_algorithm_type in (1, 3):
         # RSA
@@ -107,10 +112,9 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
                 k = random.StrongRandom().randint(1, secret_key.p - 1)
                 if GCD(k, secret_key.p - 1) == 1:
                     break
-            print(k)
         # TODO: Remove dependence on undocumented method
         sig_string = PKCS1_v1_5.EMSA_PKCS1_V1_5_ENCODE(
-                            hash_, secret_key.size())
+                            hash_, _key_byte_length(secret_key))
         return secret_key.sign(sig_string, k)
     elif pub_algorithm_type == 17:
         q = secret_key.q
@@ -129,16 +133,24 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
 def verify_hash(pub_algorithm_type, public_key, hash_, values):
     if pub_algorithm_type in (1, 3):
         # RSA
-        s = long_to_bytes(values[0])
+        if len(values) != 1 or values[0] >= public_key.n:
+            return False
+        # The MPI has no leading zeros
+        s = long_to_bytes(values[0]).rjust(_key_byte_length(public_key),
+                                           b'\x00')
         return PKCS1_v1_5.new(public_key).verify(hash_, s)
     elif pub_algorithm_type == 20:
         # ELG
+        if len(values) != 2 or values[1] >= public_key.p - 1:
+            return False
         # TODO: Remove dependence on undocumented method
         sig_string = PKCS1_v1_5.EMSA_PKCS1_V1_5_ENCODE(
-                            hash_, public_key.size())
+                            hash_, _key_byte_length(public_key))
         return public_key.verify(sig_string, values)
     elif pub_algorithm_type == 17:
         # DSA
+        if len(values) != 2:
+            return False
         q = public_key.q
         qbits = q.bit_length()
         qbytes = int(math.ceil(qbits / 8.0))
-- 
2.43.0


From 2c5103a2687f83b64f1a1c2c6397422f6116304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 33/74] fix: make the compression objects stream properly and
 support BZip2 both ways

---
 pgp/utils.py | 109 +++++++++++++++++++++++----------------------------
 1 file changed, 49 insertions(+), 60 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 2857ab0..5730c7f 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -325,89 +325,78 @@ class ZlibCompression(object):
         self._result = b''
         self.level = level
 
-    def compress(self, data):
+    def _get_compressor(self):
+        level = self.level
+        if level is None:
+            level = zlib.Z_DEFAULT_COMPRESSION
+        return zlib.compressobj(level)
+
+    def _get_decompressor(self):
+        return zlib.decompressobj()
+
+    def _start(self, compress):
         if self._result is None:
             # already flushed
             raise ValueError
-        if self._compress is False:
+        if self._compress is (not compress):
             raise ValueError
         if self._obj is None:
-            self._compress = True
-            self._obj = zlib.compressobj(self.level)
-            self._result += self._obj.compress(data)
+            self._compress = compress
+            if compress:
+                self._obj = self._get_compressor()
+            else:
+                self._obj = self._get_decompressor()
+
+    def compress(self, data):
+        self._start(True)
+        self._result += self._obj.compress(data)
         return b''
 
     def decompress(self, data):
-        if self._result is None:
-            # already flushed
-            raise ValueError
-        if self._compress is True:
-            raise ValueError
-        if self._obj is None:
-            self._compress = False
-            self._obj = zlib.decompressobj()
-        self._result += self._obj.decompress(data)
+        self._start(False)
+        if not self._obj.eof:
+            self._result += self._obj.decompress(data)
         return b''
 
     def flush(self):
-        if self._result is None:
+        if self._compress is None:
+            # Nothing to compress
+            self._start(True)
+        elif self._result is None:
             # already flushed
             raise ValueError
         result = self._result
-        result += self._obj.flush()
+        if self._compress:
+            result += self._obj.flush()
+        elif not self._obj.eof:
+            raise ValueError('Incomplete compressed data')
         self._result = None
         return result
 
 
-_CompressionObj = zlib.compressobj().__class__
-_DecompressionObj = zlib.decompressobj().__class__
+class DeflateCompression(ZlibCompression):
 
+    def _get_compressor(self):
+        level = self.level
+        if level is None:
+            level = zlib.Z_DEFAULT_COMPRESSION
+        # No header and checksum
+        return zlib.compressobj(level, zlib.DEFLATED, -zlib.MAX_WBITS)
 
-class DeflateCompression(object):
+    def _get_decompressor(self):
+        return zlib.decompressobj(-zlib.MAX_WBITS)
 
-    def __init__(self, level):
-        self._obj = None
-        self._compress = None
-        self._result = b''
-        self.level = level
 
-    def compress(self, data):
-        if self._result is None:
-            # already flushed
-            raise ValueError
-        if self._compress is False:
-            raise ValueError
-        if self._obj is None:
-            self._compress = True
-            self._obj = zlib.compressobj(self.level)
-        self._result += self._obj.compress(data)
-        return b''
+class BZ2Compression(ZlibCompression):
 
-    def decompress(self, data):
-        if self._result is None:
-            # already flushed
-            raise ValueError
-        if self._compress is True:
-            raise ValueError
-        if self._obj is None:
-            self._compress = False
-            self._obj = zlib.decompressobj()
-            # Fake header
-            self._obj.decompress(b'\x78\x9c')
-        self._result += self._obj.decompress(data)
-        return b''
+    def _get_compressor(self):
+        level = self.level
+        if level is None:
+            level = 9
+        return bz2.BZ2Compressor(level)
 
-    def flush(self):
-        if self._result is None:
-            # already flushed
-            raise ValueError
-        result = self._result
-        result += self._obj.flush()
-        self._result = None
-        if self._compress:
-            # Discard header and checksum
-            result = result[2:-4]
-        return result
+    def _get_decompressor(self):
+        return bz2.BZ2Decompressor()
 
 
 def get_compression_instance(type_, level=None):
@@ -422,7 +411,7 @@ def get_compression_instance(type_, level=None):
         # ZLIB - RFC 1950
         instance = ZlibCompression(level)
     elif type_ == 3:
-        instance = bz2.BZ2Compressor(level)
+        instance = BZ2Compression(level)
 
     return instance
 
-- 
2.43.0


From 34c99b268afc44f8e7b966375076f1e15aa10c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 34/74] fix: protect session keys with a random ElGamal
 exponent and check what is decrypted

---
 pgp/packets/packets.py | 44 ++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 77c5f7d..67304ab 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -22,6 +22,7 @@ import warnings
 from Crypto import Random
 from Crypto.Cipher.PKCS1_v1_5 import PKCS115_Cipher
 from Crypto.Hash import SHA
+from Crypto.Random import random
 
 from pgp.packets import constants
 from pgp.packets.signature_subpackets import signature_subpacket_from_data
@@ -62,7 +63,8 @@ class PKCS115_ElGamal_Cipher(PKCS115_Cipher):
         # Step 2b
         em = b'\x00\x02' + ps + b'\x00' + message
         # Step 3a (OS2IP), step 3b (RSAEP), part of step 3c (I2OSP)
-        m = self._key.encrypt(em, 0)
+        K = random.StrongRandom().randint(1, int(self._key.p) - 2)
+        m = self._key.encrypt(em, K)
         # Skip step 3c (I2OSP)
         # ...
         return m
@@ -201,10 +203,10 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
                                  encrypted_session_key):
         if public_key_algorithm in (1, 2, 3):
             cipher = PKCS115_Cipher(secret_key_obj)
-        elif public_key_algorithm in (16,):
+        elif public_key_algorithm in (16, 20):
             cipher = PKCS115_ElGamal_Cipher(secret_key_obj)
         else:
-            cipher = secret_key_obj
+            raise ValueError(public_key_algorithm)
         sentinel = Random.new().read((secret_key_obj.size() + 1) // 8)
         encrypted_session_key_length = len(encrypted_session_key)
         decrypted_values = []
@@ -218,9 +220,13 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
             offset += mpilen
             ems.append(bytes(em))
 
+        if len(ems) != (1 if public_key_algorithm in (1, 2, 3) else 2):
+            raise ValueError('Wrong number of encrypted values.')
         if len(ems) == 1:
-            # RSA takes a single argument.
-            em = ems[0]
+            # RSA takes a single argument, as long as the modulus. Leading
+            # zeros are not part of the MPI.
+            key_length = secret_key_obj.size() // 8 + 1
+            em = ems[0].rjust(key_length, b'\x00')
         else:
             # ElGamal takes a 2-tuple.
             em = tuple(ems)
@@ -230,16 +236,10 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
             raise ValueError()
         decrypted_values.append(m)
 
-        if public_key_algorithm in (1, 2, 3, 16):
-            # RSA / ElGamal
-            m = decrypted_values[0]
-        elif public_key_algorithm in (17, 19):
-            # This was broken when adding ElGamal support. Did it work
-            # before we added ElGamal? Then we should fix this. I doubt
-            # it though, since the sentinel argument was only valid for
-            # the PKCS115_Cipher.
-            raise NotImplementedError()
-            m = decrypted_values[1]
+        # RSA / ElGamal
+        m = decrypted_values[0]
+        if len(m) < 3:
+            raise ValueError('Decrypted session key is too short.')
 
         symmetric_algorithm = int(m[0])
         expected_checksum = (
@@ -257,10 +257,10 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
                            symmetric_algorithm, session_key):
         if public_key_algorithm in (1, 2, 3):
             cipher = PKCS115_Cipher(key_obj)
-        elif public_key_algorithm in (16,):
+        elif public_key_algorithm in (16, 20):
             cipher = PKCS115_ElGamal_Cipher(key_obj)
         else:
-            cipher = key_obj
+            raise ValueError(public_key_algorithm)
         encrypted_key = bytearray()
         session_key = bytearray(session_key)
         checksum = sum(session_key) % 65536
@@ -269,14 +269,8 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
             checksum >> 8,
             checksum & 0xff
             ]))
-        if public_key_algorithm in (1, 2, 3, 16):
-            # RSA / ElGamal
-            values = cipher.encrypt(session_key)
-        else:
-            k = Random.random.randint(1, cipher.p - 2)
-            values = cipher.encrypt(utils.bytes_to_int(session_key, 0,
-                                                       len(session_key)), k)
-            values = map(utils.int_to_bytes, values)
+        # RSA / ElGamal
+        values = cipher.encrypt(session_key)
         if isinstance(values, bytes):
             values = (values,)
         for v in values:
-- 
2.43.0


From 5d72f7f474d3d96e3177d3e85520d806c4c09423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 35/74] fix: read and write encrypted data without integrity
 protection and check integrity before parsing

---
 pgp/message.py | 77 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 49 insertions(+), 28 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 8c238ba..bfcfe72 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -397,8 +397,12 @@ class SymmetricallyEncryptedMessageData(object):
         version = None
         if integrity_protected:
             version = packet.version
+        if integrity_protected:
+            encrypted_data = packet.encrypted_data
+        else:
+            encrypted_data = packet.data
         return cls(
-            encrypted_data=packet.encrypted_data,
+            encrypted_data=encrypted_data,
             integrity_protected=integrity_protected,
             version=version
             )
@@ -408,7 +412,7 @@ class SymmetricallyEncryptedMessageData(object):
         self.data = encrypted_data
         self.integrity_protected = integrity_protected
         self.version = version
-        if data:
+        if data is not None:
             self.encrypt(symmetric_algorithm, session_key, data)
 
     def encrypt(self, symmetric_algo, key, message):
@@ -425,14 +429,16 @@ class SymmetricallyEncryptedMessageData(object):
         if not self.integrity_protected:
             padding = block_len - len(message) % block_len
             message = message + b'\x00' * padding
-            data.extend(cipher.encrypt(iv + iv[-2:]))
+            prefix = iv + iv[-2:] + b'\x00' * (block_len - 2)
+            data.extend(cipher.encrypt(prefix)[:block_len + 2])
+            # Resynchronise
             cipher = utils.get_symmetric_cipher(
                 symmetric_algo,
                 key,
                 utils.CFB,
-                iv
+                data[2:]
                 )
-            data.extend(cipher.encrypt(message))
+            data.extend(cipher.encrypt(message)[:-padding])
         else:
             padding = block_len - (len(message) + 2 + 22) % block_len
             data.extend(cipher.encrypt(iv))
@@ -451,8 +457,14 @@ class SymmetricallyEncryptedMessageData(object):
         decrypted_data = bytearray()
         offset = 0
         padding = 0
-        block_len = utils.symmetric_cipher_block_lengths[symmetric_algo]
-        encrypted_iv = encrypted_data[:block_len + 2]
+        block_len = utils.symmetric_cipher_block_lengths.get(symmetric_algo)
+        key_len = utils.symmetric_cipher_key_lengths.get(symmetric_algo)
+        if not block_len or len(key) != key_len:
+            raise ValueError('Invalid session key.')
+        if self.integrity_protected and self.version != 1:
+            raise ValueError('Unknown version of encrypted data.')
+        if len(encrypted_data) < block_len + 2:
+            raise ValueError('Encrypted data is too short.')
         cipher = utils.get_symmetric_cipher(
             symmetric_algo,
             key,
@@ -462,6 +474,10 @@ class SymmetricallyEncryptedMessageData(object):
         if self.integrity_protected:
             # "Unlike the Symmetrically Encrypted Data Packet, no special CFB
             #  resynchronization is done after encrypting this prefix data."
+            if len(encrypted_data) < block_len + 2 + 22:
+                raise ValueError(
+                    'Integrity protected message is missing modification '
+                    'detection code.')
             offset += block_len
             first_block = cipher.decrypt(
                 encrypted_data[offset:offset + block_len])
@@ -471,16 +487,24 @@ class SymmetricallyEncryptedMessageData(object):
                 raise ValueError()
 
             decrypted_data.extend(first_block[2:])
-
-            # Pad the remaining data manually
-            padding = block_len - (len(encrypted_data) - offset) % block_len
-            encrypted_data += b'\x00' * padding
         else:
+            offset += block_len
+            iv_check = cipher.decrypt(
+                encrypted_data[offset:offset + 2] +
+                b'\x00' * (block_len - 2))[:2]
+            if iv_check != decrypted_iv[-2:]:
+                raise ValueError()
+            offset += 2
+            # Resynchronise
             cipher = utils.get_symmetric_cipher(
                 symmetric_algo,
                 key,
-                utils.OPENPGP,
-                encrypted_iv)
+                utils.CFB,
+                encrypted_data[2:offset])
+
+        # Pad the remaining data manually
+        padding = block_len - (len(encrypted_data) - offset) % block_len
+        encrypted_data += b'\x00' * padding
 
         decrypted_data.extend(cipher.decrypt(encrypted_data[offset:]))
         decrypted_data = decrypted_data[:-padding]
@@ -488,29 +512,19 @@ class SymmetricallyEncryptedMessageData(object):
         # Let's make pretend.
         mdc_data = bytearray()
         main_data = decrypted_data
-        if decrypted_data[-22:-20] == b'\xd3\x14':
+        if (self.integrity_protected and
+                decrypted_data[-22:-20] == b'\xd3\x14'):
             # It's there. Hold it back.
             mdc_data = decrypted_data[-22:]
             main_data = decrypted_data[:-22]
-        data_len = len(main_data)
-        offset = 0
-        decrypted_packets = []
-        while offset < data_len:
-            offset, packet = packets.packet_from_packet_data(main_data, offset)
-            decrypted_packets.append(packet)
-
-        if mdc_data:
-            # One more for the MDC
-            offset, packet = packets.packet_from_packet_data(mdc_data, 0)
-            decrypted_packets.append(packet)
 
+        # Don't look at the packets of a modified message
         if self.integrity_protected:
-            if (decrypted_packets[-1].type !=
-                    C.MODIFICATION_DETECTION_CODE_PACKET_TYPE):
+            if not mdc_data:
                 raise ValueError(
                     'Integrity protected message is missing modification '
                     'detection code.')
-            mdc = decrypted_packets.pop()
+            offset, mdc = packets.packet_from_packet_data(mdc_data, 0)
             hash_ = SHA.new(decrypted_iv)
             hash_.update(decrypted_iv[-2:])
             hash_.update(decrypted_data[:-20])
@@ -519,6 +533,13 @@ class SymmetricallyEncryptedMessageData(object):
                     'Integrity protected message does not match modification '
                     'detection code.')
 
+        data_len = len(main_data)
+        offset = 0
+        decrypted_packets = []
+        while offset < data_len:
+            offset, packet = packets.packet_from_packet_data(main_data, offset)
+            decrypted_packets.append(packet)
+
         return open_pgp_message_from_packets(decrypted_packets)
 
     def to_packet(self, header_format=None):
-- 
2.43.0


From 70ce78f3d85676388a77c5c27e00ae9501a4e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 36/74] fix: find the right session key of a message and hide
 recipients

---
 pgp/message.py         | 70 ++++++++++++++++++++++++++++++------------
 pgp/packets/packets.py |  6 ++++
 2 files changed, 56 insertions(+), 20 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index bfcfe72..248ea82 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -63,6 +63,8 @@ class BaseMessage(object):
                 '`public_keys`.')
         elif public_key is not None:
             public_keys = [public_key]
+        elif public_keys is None:
+            public_keys = []
         if hidden_public_keys is None:
             hidden_public_keys = []
         if session_key is None:
@@ -257,9 +259,18 @@ class SymmetricSessionKey(object):
             passphrase = passphrase.encode('utf8')
 
         return PacketCls._get_key_and_cipher_algo(
-                    self.s2k_specification, self.symmetric_algorithm,
+                    self.s2k_specification, self._packet_algorithm,
                     passphrase, self.encrypted_key)
 
+    @property
+    def _packet_algorithm(self):
+        # The session key is encrypted with the algorithm which the string to
+        # key specification is for. The algorithm of the message is stored
+        # next to the session key.
+        if self.encrypted_key:
+            return self.s2k_specification.symmetric_algorithm
+        return self.symmetric_algorithm
+
     def set_session_key(self, passphrase, session_key=None):
         # "If the encrypted session key is not present (which can be detected
         #  on the basis of packet length and S2K specifier size), then the S2K
@@ -289,7 +300,7 @@ class SymmetricSessionKey(object):
         return packets.SymmetricKeyEncryptedSessionKeyPacket(
             header_format,
             4,  # "The only currently defined version is 4."
-            self.symmetric_algorithm,
+            self._packet_algorithm,
             self.s2k_specification,
             self.encrypted_key
             )
@@ -335,9 +346,9 @@ class PublicKeySessionKey(object):
         self.key_id = key_id
         if public_key:
             self.public_key_algorithm = public_key.public_key_algorithm
-            self.key_id = public_key.key_id
-        if encrypted_key:
-            self.encrypted_key = encrypted_key
+            if not hide_key_id:
+                self.key_id = public_key.key_id
+        self.encrypted_key = encrypted_key
         if session_key:
             self.set_algorithm_and_session_key(public_key,
                                                symmetric_algorithm,
@@ -346,6 +357,12 @@ class PublicKeySessionKey(object):
     def get_algorithm_and_session_key(self, secret_key):
         if secret_key.is_locked():
             raise RuntimeError('Key must be unlocked.')
+        for algorithms in ((1, 2, 3), (16, 20)):
+            if (self.public_key_algorithm in algorithms and
+                    secret_key.public_key_algorithm in algorithms):
+                break
+        else:
+            raise ValueError('The message is for another type of key.')
         ko = secret_key._get_key_obj()
         PktCls = packets.PublicKeyEncryptedSessionKeyPacket
         return \
@@ -371,6 +388,8 @@ class DefaultSessionKey(object):
     key_hash_algorithm = 1  # MD5
 
     def get_algorithm_and_session_key(self, passphrase):
+        if isinstance(passphrase, str):
+            passphrase = passphrase.encode('utf8')
         hash_ = utils.get_hash_instance(self.key_hash_algorithm)
         hash_.update(passphrase)
         key = hash_.digest()
@@ -379,6 +398,10 @@ class DefaultSessionKey(object):
     def set_algorithm_and_session_key(self, *args, **kwargs):
         raise TypeError()
 
+    def to_packet(self, header_format=None):
+        # There is no packet for this
+        return None
+
 
 EncryptedSessionKey.register(DefaultSessionKey)
 SymEncAndIPDPacket = \
@@ -592,7 +615,10 @@ class EncryptedMessageWrapper(BaseMessage):
         if not session_keys:
             raise ValueError
 
-        if packet.type in encrypted_message_packet_types:
+        if packets:
+            raise ValueError('Unexpected packet after encrypted data.')
+
+        if packet.type in encrypted_message_data_packet_types:
             return cls(session_keys, parse_encrypted_message_packet(packet))
 
         raise TypeError
@@ -608,27 +634,31 @@ class EncryptedMessageWrapper(BaseMessage):
         #  Message."
         sym_algo = None
         sess_key = None
+        error = None
+        is_passphrase = isinstance(secret_key_or_passphrase,
+                                   (str, bytes, bytearray))
         for sess_key_obj in self.session_keys:
             if isinstance(sess_key_obj, PublicKeySessionKey):
-                try:
-                    sym_algo, sess_key = \
-                        sess_key_obj.get_algorithm_and_session_key(
-                            secret_key_or_passphrase)
-                except ValueError:
+                if is_passphrase or secret_key_or_passphrase is None:
+                    continue
+            elif isinstance(sess_key_obj, (SymmetricSessionKey,
+                                           DefaultSessionKey)):
+                if not is_passphrase:
                     continue
-            elif isinstance(sess_key_obj, SymmetricSessionKey):
-                sym_algo, sess_key = \
-                    sess_key_obj.get_algorithm_and_session_key(
-                        secret_key_or_passphrase)
-            elif isinstance(sess_key_obj, DefaultSessionKey):
-                sym_algo, sess_key = \
-                    sess_key_obj.get_algorithm_and_session_key(
-                        secret_key_or_passphrase)
             else:
                 # TODO: consider raising an error
                 continue
-            return self.message_data_obj.decrypt(sym_algo, sess_key)
+            # The key or passphrase may be meant for another session key.
+            try:
+                sym_algo, sess_key = \
+                    sess_key_obj.get_algorithm_and_session_key(
+                        secret_key_or_passphrase)
+                return self.message_data_obj.decrypt(sym_algo, sess_key)
+            except ValueError as e:
+                error = e
 
+        if error is not None:
+            raise error
         # TODO: raise a better error
         raise ValueError()
 
diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 67304ab..fe22614 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -572,7 +572,13 @@ class SymmetricKeyEncryptedSessionKeyPacket(Packet):
         #  algorithm applied to the passphrase produces the session key for
         #  decrypting the file, using the symmetric cipher algorithm from the
         #  Symmetric-Key Encrypted Session Key packet."
+        if not utils.symmetric_cipher_key_lengths.get(symmetric_algorithm):
+            raise ValueError('Unknown symmetric algorithm.')
+        if s2k_specification.hash_algorithm not in utils.hash_lengths:
+            raise ValueError('Unknown hash algorithm.')
         key = s2k_specification.to_key(passphrase)
+        if key is None:
+            raise ValueError('The key cannot be derived from a passphrase.')
         symmetric_algorithm = symmetric_algorithm
 
         # "If the encrypted session key is present, the result of applying the
-- 
2.43.0


From f355176a945ac8de8ec864f0b35abcfb77396bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 37/74] fix: read and write every message structure of the
 standard

---
 pgp/message.py | 95 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 69 insertions(+), 26 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 248ea82..0db9728 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -146,7 +146,10 @@ class LiteralMessage(BaseMessage):
         filename = packet.filename
         timestamp = datetime.datetime.fromtimestamp(packet.time)
         data = packet.data
-        return class_(data, filename, timestamp)
+        result = class_(data, filename, timestamp)
+        if data_format == b't':
+            result.data_format = data_format
+        return result
 
     @abc.abstractmethod
     def __init__(self, data, filename, timestamp):
@@ -162,16 +165,19 @@ class LiteralMessage(BaseMessage):
         return [self.to_packet(header_format)]
 
     def to_signable_data(self, signature_type, signature_version=3):
-        return self.data
+        return utils.get_signable_data(bytes(self.data), signature_type,
+                                       signature_version)
 
 
 class TextMessage(LiteralMessage):
+    # UTF-8, or b't' for text of unknown encoding (read as Latin-1)
+    data_format = b'u'
 
     def to_packet(self, header_format=None):
         if header_format is None:
             header_format = self.packet_header_type
         return packets.LiteralDataPacket(
-                    header_format, b'u', self.filename, self.timestamp,
+                    header_format, self.data_format, self.filename, self.timestamp,
                     self.data)
 
     def __init__(self, data, filename, timestamp):
@@ -180,7 +186,10 @@ class TextMessage(LiteralMessage):
         self.timestamp = timestamp
 
     def to_signable_data(self, signature_type, signature_version=3):
-        data = self.data.encode('utf8')
+        if self.data_format == b't':
+            data = self.data.encode('latin-1')
+        else:
+            data = self.data.encode('utf8')
         if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
             return utils.canonical_text(data)
         return data
@@ -250,6 +259,8 @@ class SymmetricSessionKey(object):
         self.symmetric_algorithm = symmetric_algorithm
         self.s2k_specification = s2k_specification
         self.encrypted_key = encrypted_key
+        if isinstance(passphrase, str):
+            passphrase = passphrase.encode('utf8')
         if passphrase is not None:
             self.set_session_key(passphrase, session_key)
 
@@ -685,23 +696,34 @@ class SignedMessageWrapper(BaseMessage):
 
     @classmethod
     def from_packets(cls, packets):
-        one_pass = False
-        signatures = []
-        message = None
-        for packet in packets:
-            if packet.type == C.ONE_PASS_SIGNATURE_PACKET_TYPE:
-                one_pass = True
-            elif packet.type == C.SIGNATURE_PACKET_TYPE:
-                if message:
-                    signature = parse_signature_from_packet(packet, message,
-                                                            one_pass=one_pass)
-                    signatures.append(signature)
-                else:
-                    raise TypeError()
-            elif message is None:
-                message = open_pgp_message_from_packets([packet])
-            else:
-                raise TypeError()
+        packets = list(packets)
+        one_pass = packets[0].type == C.ONE_PASS_SIGNATURE_PACKET_TYPE
+        count = 0
+        while count < len(packets) and packets[count].type == packets[0].type:
+            count += 1
+            # "A zero value indicates that the next packet is another One-Pass
+            #  Signature packet that describes another signature to be applied
+            #  to the same message data."
+            if one_pass and packets[count - 1].nested:
+                break
+        if one_pass:
+            # "the signatures appear in the reverse order of the one-pass
+            #  signature packets"
+            end = len(packets) - count
+            signature_packets = packets[:end - 1:-1]
+        else:
+            end = len(packets)
+            signature_packets = packets[:count]
+        if end <= count:
+            raise ValueError('Incomplete signed message.')
+        for packet in signature_packets:
+            if packet.type != C.SIGNATURE_PACKET_TYPE:
+                raise ValueError('Missing signature for signed message.')
+        message = open_pgp_message_from_packets(packets[count:end])
+        signatures = [
+            parse_signature_from_packet(packet, message, one_pass=one_pass)
+            for packet in signature_packets
+            ]
         return cls(signatures, message, one_pass)
 
     def __init__(self, signatures, message, one_pass=True):
@@ -712,8 +734,13 @@ class SignedMessageWrapper(BaseMessage):
     def get_message(self):
         return self.message
 
+    def to_signable_data(self, signature_type, signature_version=3):
+        return self.message.to_signable_data(signature_type,
+                                             signature_version)
+
     def to_packets(self, header_format=None):
         pkts = []
+        signatures = [sig.to_packet(header_format) for sig in self.signatures]
         op_header_format = header_format
         if self.one_pass:
             i = 0
@@ -728,12 +755,16 @@ class SignedMessageWrapper(BaseMessage):
                         sig.signature_type,
                         sig.hash_algorithm,
                         sig.public_key_algorithm,
-                        sig.issuer_key_ids[0],
-                        nested=(i != len(self.signatures))
+                        (sig.issuer_key_ids or ['0' * 16])[0],
+                        nested=(i == len(self.signatures))
                     ))
+        else:
+            pkts.extend(signatures)
         pkts.extend(self.message.to_packets(header_format))
-        for sig in self.signatures:
-            pkts.append(sig.to_packet(header_format))
+        if self.one_pass:
+            # Signatures are in the reverse order of the one-pass signature
+            # packets.
+            pkts.extend(reversed(signatures))
         return pkts
 
 
@@ -760,6 +791,10 @@ class CompressedMessageWrapper(BaseMessage):
             self.compression_algorithm, self.data)
         return open_pgp_message_from_packets(pkts)
 
+    def to_signable_data(self, signature_type, signature_version=3):
+        return self.get_message().to_signable_data(signature_type,
+                                                   signature_version)
+
     def set_message(self, message):
         pkts = message.to_packets()
         self.data = packets.CompressedDataPacket.compress_packets(
@@ -776,7 +811,11 @@ class CompressedMessageWrapper(BaseMessage):
 
 
 def open_pgp_message_from_packets(pkts):
-    pkts = collections.deque(pkts)
+    # "[Marker packets] MUST be ignored when received."
+    pkts = collections.deque(p for p in pkts
+                             if p.type != C.MARKER_PACKET_TYPE)
+    if not pkts:
+        raise ValueError('Empty message.')
     packet = pkts.popleft()
     if packet.type in encrypted_message_packet_types:
         pkts.appendleft(packet)
@@ -785,10 +824,14 @@ def open_pgp_message_from_packets(pkts):
                          C.SIGNATURE_PACKET_TYPE):
         pkts.appendleft(packet)
         result = SignedMessageWrapper.from_packets(pkts)
+    elif pkts:
+        raise ValueError('Unexpected packet after the message.')
     elif packet.type == C.COMPRESSED_DATA_PACKET_TYPE:
         result = CompressedMessageWrapper.from_packet(packet)
     elif packet.type == C.LITERAL_DATA_PACKET_TYPE:
         result = LiteralMessage.from_packet(packet)
+    else:
+        raise ValueError('Not part of a message.')
 
     return result
 
-- 
2.43.0


From 4e85a72858c81a298ab5c01f9cd4ad1d103d7138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 38/74] fix: make version 3 and third-party confirmation
 signatures work

---
 pgp/packets/packets.py    | 18 ++++++++++++-----
 pgp/signature.py          | 41 ++++++++++++++++++++++++++-------------
 pgp/transferrable_keys.py |  3 ++-
 pgp/utils.py              | 14 +++++++------
 4 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index fe22614..70f6d92 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -498,9 +498,7 @@ class SignaturePacket(Packet):
             result.append(self.public_key_algorithm)
             result.append(self.hash_algorithm)
             hashed_subpacket_data = bytearray()
-            for sp in self.subpackets:
-                if not sp.hashed:
-                    continue
+            for sp in self.hashed_subpackets:
                 hashed_subpacket_data.extend(bytes(sp))
 
             hashed_subpacket_length = len(hashed_subpacket_data)
@@ -513,9 +511,19 @@ class SignaturePacket(Packet):
         return result
 
     def get_content_for_signature_hash(self, signature_version):
+        # "the hash data starts with the octet 0x88, followed by the four-octet
+        #  length of the signature, and then the body of the Signature packet.
+        #  [...] The unhashed subpacket data of the Signature packet being
+        #  hashed is not included in the hash, and the unhashed subpacket data
+        #  length value is set to zero."
         result = bytearray([0x88])
-        sig_hash_data = self.get_signature_hash_trailer()
-        result.extend(utils.int_to_2byte(len(sig_hash_data)))
+        sig_hash_data = SignaturePacket(
+            self.header_format, self.version, self.signature_type,
+            self.public_key_algorithm, self.hash_algorithm, self.hash2,
+            self.signature_values, creation_time=self.creation_time,
+            key_id=self.key_id,
+            hashed_subpackets=self.hashed_subpackets).content
+        result.extend(utils.int_to_4byte(len(sig_hash_data)))
         result.extend(sig_hash_data)
         return result
 
diff --git a/pgp/signature.py b/pgp/signature.py
index cfa3b63..b077b70 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -135,8 +135,7 @@ class BaseSignature(object):
         hash2 = packet.hash2
         signature_values = packet.signature_values
         if version in (2, 3):
-            creation_time = datetime.datetime.fromtimestamp(
-                                packet.creation_time)
+            creation_time = packet.creation_time
             issuer_key_id = packet.key_id
             hashed_subpackets = []
             unhashed_subpackets = []
@@ -171,12 +170,13 @@ class BaseSignature(object):
                         hashed_subpackets=hashed_subpackets,
                         unhashed_subpackets=unhashed_subpackets)
         elif self.version in (2, 3):
-            creation_time = int(time.mktime(self.creation_time.timetuple()))
+            creation_time = int(self.creation_time.timestamp())
             packet = packets.SignaturePacket(
                         header_format, self.version, self.signature_type,
                         self.public_key_algorithm, self.hash_algorithm,
-                        self.hash2, self.signature_values, creation_time,
-                        self.issuer_key_ids[0])
+                        self.hash2, self.signature_values,
+                        creation_time=creation_time,
+                        key_id=self.issuer_key_ids[0])
         return packet
 
     def to_signable_data(self, signature_type, signature_version=3):
@@ -186,7 +186,7 @@ class BaseSignature(object):
         result.append(self.signature_type)
         if self.version < 4:
             result.extend(utils.int_to_4byte(
-                time.mktime(self.creation_time.timetuple())
+                int(self.creation_time.timestamp())
             ))
         else:
             result.append(self.public_key_algorithm)
@@ -210,7 +210,7 @@ class BaseSignature(object):
         return '<{0} {1} by {2} {3}at 0x{4:x}>'.format(
             self.__class__.__name__,
             C.human_signature_types.get(self.signature_type, 'Unknown'),
-            self.issuer_key_ids[0],
+            ', '.join(self.issuer_key_ids),
             validation,
             id(self))
 
@@ -230,16 +230,18 @@ class BaseSignature(object):
         self.hash_algorithm = hash_algorithm
         self.hash2 = hash2
         self.signature_values = signature_values
+        self.hashed_subpackets = hashed_subpackets or []
+        self.unhashed_subpackets = unhashed_subpackets or []
         if version in (2, 3):
-            self._creation_time = creation_time
+            self._creation_time = self._to_timestamp(creation_time)
             self._issuer_key_id = issuer_key_id
         elif version >= 4:
             if creation_time is not None:
-                self._creation_time = creation_time
+                self._update_subpacket_values(
+                    C.CREATION_TIME_SUBPACKET_TYPE,
+                    'time', self._to_timestamp(creation_time))
             if issuer_key_id is not None:
                 self.issuer_key_ids = [issuer_key_id]
-        self.hashed_subpackets = hashed_subpackets or []
-        self.unhashed_subpackets = unhashed_subpackets or []
         if current_time_fn is None:
             current_time_fn = datetime.datetime.now
         self.get_current_time = current_time_fn
@@ -301,6 +303,12 @@ class BaseSignature(object):
             if getattr(sp, attr) == value:
                 self._remove_subpacket(sp)
 
+    @staticmethod
+    def _to_timestamp(value):
+        if isinstance(value, datetime.datetime):
+            value = int(value.timestamp())
+        return value
+
     def _get_creation_time(self):
         if self.version in (2, 3):
             value = self._creation_time
@@ -308,6 +316,8 @@ class BaseSignature(object):
             value = self._get_subpacket_values(
                 C.CREATION_TIME_SUBPACKET_TYPE,
                 'time')
+        if value is None:
+            return None
         return datetime.datetime.fromtimestamp(value)
 
     def _set_creation_time(self, dt):
@@ -327,7 +337,7 @@ class BaseSignature(object):
 
     def _get_issuer_key_ids(self):
         if self.version in (2, 3):
-            return [self._issuer_key_ids]
+            return [self._issuer_key_id]
         elif self.version >= 4:
             return self._get_subpacket_values(
                 C.ISSUER_KEY_ID_SUBPACKET_TYPE,
@@ -335,8 +345,11 @@ class BaseSignature(object):
 
     def _set_issuer_key_ids(self, key_ids):
         existing = self.issuer_key_ids
-        if self.version in (2, 3) and len(key_ids) != 1:
-            raise ValueError
+        if self.version in (2, 3):
+            if len(key_ids) != 1:
+                raise ValueError
+            self._issuer_key_id = key_ids[0]
+            return
 
         for k in set(key_ids) | set(existing):
             if k in existing and key_ids:
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 564d0bf..595d532 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -535,7 +535,8 @@ class BaseSecretKey(BasePublicKey):
             SigClass = BaseSignature
         creation_time = int(time.time())
         issuer_key_id = self.key_id
-        hashed_subpackets = hashed_subpackets or []
+        # The list is the caller's
+        hashed_subpackets = list(hashed_subpackets or [])
         unhashed_subpackets = []
         creation_time_arg = None
         issuer_key_id_arg = None
diff --git a/pgp/utils.py b/pgp/utils.py
index 5730c7f..cc4f2c2 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -444,6 +444,10 @@ def get_signable_data(item, signature_type, signature_version):
         if signature_type == constants.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
             item = canonical_text(bytes(item))
         return item
+    if signature_type == constants.THIRD_PARTY_CONFIRMATION_SIGNATURE:
+        # The item is a signature
+        return item.to_packet().get_content_for_signature_hash(
+            signature_version)
     return item.to_signable_data(signature_type, signature_version)
 
 
@@ -495,9 +499,8 @@ def hash_packet_for_signature(packet_for_hash,
         hash_key(data_to_hash, public_key_packet_data)
         hash_key(data_to_hash, packet_data_for_hash)
     elif signature_type == constants.THIRD_PARTY_CONFIRMATION_SIGNATURE:
-        data_to_hash.append(0x88)
-        data_to_hash.append(len(packet_data_for_hash))
-        data_to_hash.extend(packet_data_for_hash)
+        data_to_hash.extend(
+            packet_for_hash.get_content_for_signature_hash(signature_version))
     elif signature_type in (constants.SIGNATURE_OF_A_BINARY_DOCUMENT,
                             constants.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT):
         data_to_hash.extend(packet_data_for_hash)
@@ -521,9 +524,8 @@ def hash_packet_for_signature(packet_for_hash,
         # https://tools.ietf.org/html/rfc1991
         # http://www.imc.org/ietf-openpgp/mail-archive/msg04966.html
         # http://www.imc.org/ietf-openpgp/mail-archive/msg04970.html
-        data_to_hash.append(0x88)
-        data_to_hash.append(len(packet_data_for_hash))
-        data_to_hash.extend(packet_data_for_hash)
+        data_to_hash.extend(
+            packet_for_hash.get_content_for_signature_hash(signature_version))
 
     if signature_version >= 4:
         data_to_hash.append(signature_version)
-- 
2.43.0


From 9eba6737d1e6a52e25c9d8faba1a08afd1b03e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 39/74] fix: set and read every signature attribute

---
 pgp/signature.py | 235 ++++++++++++++++++++++++-----------------------
 1 file changed, 119 insertions(+), 116 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index b077b70..6294077 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -126,6 +126,23 @@ class BaseSignature(object):
     # Packet level options
     packet_header_type = C.NEW_PACKET_HEADER_TYPE
 
+    # What a new subpacket says when only one of its values is set
+    _other_subpacket_values = {
+        C.REVOCATION_REASON_SUBPACKET_TYPE: {
+            'revocation_code': 0,
+            'revocation_reason': u'',
+            },
+        C.KEY_FLAGS_SUBPACKET_TYPE: {
+            'may_certify_others': False,
+            'may_sign_data': False,
+            'may_encrypt_comms': False,
+            'may_encrypt_storage': False,
+            'may_be_used_for_auth': False,
+            'may_have_been_split': False,
+            'may_have_multiple_owners': False,
+            },
+        }
+
     @classmethod
     def from_packet(cls, packet, target):
         version = packet.version
@@ -271,6 +288,20 @@ class BaseSignature(object):
         while sp in self.unhashed_subpackets:
             self.unhashed_subpackets.remove(sp)
 
+    def _set_subpacket_items(self, type_, items, get_item, add_item):
+        # Keep the subpackets of the items that are still wanted
+        existing = []
+        for sp in self._get_subpackets(type_):
+            item = get_item(sp)
+            if item in items:
+                existing.append(item)
+            else:
+                self._remove_subpacket(sp)
+        for item in items:
+            if item not in existing:
+                existing.append(item)
+                add_item(item)
+
     def _get_subpacket_values(self, type_, attr, as_list=False):
         subpackets = self._get_subpackets(type_)
         if as_list:
@@ -293,9 +324,11 @@ class BaseSignature(object):
 
     def _add_subpacket_values(self, type_, attr, value, hashed=True,
                               critical=False):
+        values = dict(self._other_subpacket_values.get(type_, {}))
+        values[attr] = value
         sub = signature_subpackets.SIGNATURE_SUBPACKET_TYPES[type_](
-                **{attr: value, 'critical': critical})
-        self._add_subpacket(sub)
+                critical=critical, **values)
+        self._add_subpacket(sub, hashed)
 
     def _remove_subpacket_values(self, type_, attr, value):
         subpackets = self._get_subpackets(type_)
@@ -323,15 +356,18 @@ class BaseSignature(object):
     def _set_creation_time(self, dt):
         # expiration time is relative to creation time, make sure it's kept in
         # sync with creation time.
-        exp_time = self.signature__expiration_time
-        value = time.mktime(dt.timetuple())
+        exp_time = self.signature_expiration_time
+        value = int(dt.timestamp())
+        if exp_time is not None and exp_time.timestamp() <= value:
+            raise ValueError
         if self.version in (2, 3):
             self._creation_time = value
         elif self.version >= 4:
             self._update_subpacket_values(
                 C.CREATION_TIME_SUBPACKET_TYPE,
                 'time', value)
-        self.signature__expiration_time = exp_time
+        if exp_time is not None:
+            self.signature_expiration_time = exp_time
 
     creation_time = property(_get_creation_time, _set_creation_time)
 
@@ -344,31 +380,39 @@ class BaseSignature(object):
                 'key_id', as_list=True)
 
     def _set_issuer_key_ids(self, key_ids):
-        existing = self.issuer_key_ids
         if self.version in (2, 3):
             if len(key_ids) != 1:
                 raise ValueError
             self._issuer_key_id = key_ids[0]
             return
 
-        for k in set(key_ids) | set(existing):
-            if k in existing and key_ids:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket_values(
-                    C.ISSUER_KEY_ID_SUBPACKET_TYPE,
-                    'key_id', k
-                    )
-            else:
-                # Add
-                self._add_subpacket_values(
-                    C.ISSUER_KEY_ID_SUBPACKET_TYPE,
-                    'key_id', k
-                    )
+        self._set_subpacket_items(
+            C.ISSUER_KEY_ID_SUBPACKET_TYPE, key_ids,
+            lambda sp: sp.key_id,
+            lambda k: self._add_subpacket_values(
+                C.ISSUER_KEY_ID_SUBPACKET_TYPE, 'key_id', k))
 
     issuer_key_ids = property(_get_issuer_key_ids, _set_issuer_key_ids)
 
+    @staticmethod
+    def _later(dt, seconds):
+        # The difference between local times is not always the number of
+        # seconds between them.
+        return datetime.datetime.fromtimestamp(
+            int(dt.timestamp()) + seconds)
+
+    def _set_seconds(self, type_, start, dt):
+        if dt is None:
+            if not self._get_subpackets(type_):
+                return
+            value = 0
+        else:
+            value = int(dt.timestamp()) - int(start.timestamp())
+            # Zero means that it never expires
+            if value <= 0:
+                raise ValueError
+        self._update_subpacket_values(type_, 'time', value)
+
     def _get_signature_expiration_time(self):
         seconds = self._get_subpacket_values(
             C.EXPIRATION_SECONDS_SUBPACKET_TYPE,
@@ -377,19 +421,11 @@ class BaseSignature(object):
         #  expires."
         if not seconds:
             return None
-        return self.creation_time + datetime.timedelta(seconds=seconds)
+        return self._later(self.creation_time, seconds)
 
     def _set_signature_expiration_time(self, dt):
-        if dt is None:
-            value = 0
-        elif dt < self.creation_time:
-            raise ValueError
-        else:
-            td = dt - self.creation_time
-            value = td.seconds + td.days * 86400
-            self._update_subpacket_values(
-                C.EXPIRATION_SECONDS_SUBPACKET_TYPE,
-                'time', value)
+        self._set_seconds(C.EXPIRATION_SECONDS_SUBPACKET_TYPE,
+                          self.creation_time, dt)
 
     signature_expiration_time = property(
         _get_signature_expiration_time,
@@ -410,24 +446,24 @@ class BaseSignature(object):
     def _get_trust_amount(self):
         return self._get_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_amount')
+            'amount')
 
     def _set_trust_amount(self, value):
         self._update_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_amount', value)
+            'amount', value)
 
     trust_amount = property(_get_trust_amount, _set_trust_amount)
 
     def _get_trust_depth(self):
         return self._get_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_depth')
+            'depth')
 
     def _set_trust_depth(self, value):
         self._update_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_depth', value)
+            'depth', value)
 
     trust_depth = property(_get_trust_depth, _set_trust_depth)
 
@@ -439,24 +475,13 @@ class BaseSignature(object):
         return regexes
 
     def _set_regular_expressions(self, regexes):
-        existing = [regex.pattern for regex in self.regular_expressions]
         regexes = [regex.pattern for regex in regexes]
 
-        for k in set(regexes) | set(existing):
-            if k in existing and regexes:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket_values(
-                    C.REGULAR_EXPRESSION_SUBPACKET_TYPE,
-                    'pattern', k
-                    )
-            else:
-                # Add
-                self._add_subpacket_values(
-                    C.REGULAR_EXPRESSION_SUBPACKET_TYPE,
-                    'pattern', k
-                    )
+        self._set_subpacket_items(
+            C.REGULAR_EXPRESSION_SUBPACKET_TYPE, regexes,
+            lambda sp: sp.pattern,
+            lambda k: self._add_subpacket_values(
+                C.REGULAR_EXPRESSION_SUBPACKET_TYPE, 'pattern', k))
 
     regular_expressions = property(_get_regular_expressions,
                                    _set_regular_expressions)
@@ -471,7 +496,7 @@ class BaseSignature(object):
             C.REVOCABLE_SUBPACKET_TYPE,
             'revocable', value)
 
-    revocable = property(_get_exportable, _set_exportable)
+    revocable = property(_get_revocable, _set_revocable)
 
     def _get_notations(self):
         subpackets = self._get_subpackets(C.NOTATION_SUBPACKET_TYPE)
@@ -481,21 +506,10 @@ class BaseSignature(object):
         ]
 
     def _set_notations(self, notations):
-        existing = self.notations
-
-        for k in set(notations) | set(existing):
-            if k in existing and notations:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket(
-                    k.to_subpacket()
-                    )
-            else:
-                # Add
-                self._add_subpacket(
-                    k.to_subpacket()
-                    )
+        self._set_subpacket_items(
+            C.NOTATION_SUBPACKET_TYPE, notations,
+            self.NotationClass.from_subpacket,
+            lambda k: self._add_subpacket(k.to_subpacket()))
 
     notations = property(_get_notations, _set_notations)
 
@@ -513,13 +527,13 @@ class BaseSignature(object):
 
     def _get_revocation_reason(self):
         return self._get_subpacket_values(
-            C.TRUST_SUBPACKET_TYPE,
+            C.REVOCATION_REASON_SUBPACKET_TYPE,
             'revocation_reason')
 
     def _set_revocation_reason(self, value):
         self._update_subpacket_values(
-            C.TRUST_SUBPACKET_TYPE,
-            'trust_amount', value)
+            C.REVOCATION_REASON_SUBPACKET_TYPE,
+            'revocation_reason', value)
 
     revocation_reason = property(_get_revocation_reason,
                                  _set_revocation_reason)
@@ -544,25 +558,26 @@ class BaseSignature(object):
         ]
 
     def _set_embedded_signatures(self, embedded_signatures):
-        existing = self.embedded_signatures
-
-        for k in set(embedded_signatures) | set(existing):
-            if k in existing and embedded_signatures:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket(
-                    k.to_packet().to_embedded_subpacket()
-                    )
-            else:
-                # Add
-                self._add_subpacket(
-                    k.to_packet().to_embedded_subpacket()
-                    )
+        # Embedded signatures have no packet header, so compare the contents
+        contents = [k.to_packet().content for k in embedded_signatures]
+        packets_ = [k.to_packet() for k in embedded_signatures]
+        self._set_subpacket_items(
+            C.EMBEDDED_SIGNATURE_SUBPACKET_TYPE, contents,
+            lambda sp: sp.signature.content,
+            lambda k: self._add_subpacket(
+                packets_[contents.index(k)].to_embedded_subpacket()))
 
     embedded_signatures = property(_get_embedded_signatures,
                                    _set_embedded_signatures)
 
+    @property
+    def _key_creation_time(self):
+        # Certifications tell about the key the user ID belongs to
+        key = self.parent
+        if not hasattr(key, 'public_key_algorithm'):
+            key = key.primary_public_key
+        return key.creation_time
+
     def _get_key_expiration_time(self):
         seconds = self._get_subpacket_values(
             C.KEY_EXPIRATION_TIME_SUBPACKET_TYPE,
@@ -570,15 +585,12 @@ class BaseSignature(object):
         # "If this is not present or has a value of zero, the key never
         #  expires."
         if not seconds:  # 0 or None
-            return seconds
-        return self.target.creation_time + datetime.timedelta(seconds=seconds)
+            return None
+        return self._later(self._key_creation_time, seconds)
 
     def _set_key_expiration_time(self, value):
-        delta = value - self.target.creation_time
-        seconds = delta.days * 86400 + delta.seconds
-        self._update_subpacket_values(
-            C.KEY_EXPIRATION_TIME_SUBPACKET_TYPE,
-            'time', seconds)
+        self._set_seconds(C.KEY_EXPIRATION_TIME_SUBPACKET_TYPE,
+                          self._key_creation_time, value)
 
     key_expiration_time = property(_get_key_expiration_time,
                                    _set_key_expiration_time)
@@ -633,21 +645,10 @@ class BaseSignature(object):
         ]
 
     def _set_revocation_keys(self, revocation_keys):
-        existing = self.revocation_keys
-
-        for k in set(revocation_keys) | set(existing):
-            if k in existing and revocation_keys:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket(
-                    k.to_subpacket()
-                    )
-            else:
-                # Add
-                self._add_subpacket(
-                    k.to_subpacket()
-                    )
+        self._set_subpacket_items(
+            C.REVOCATION_KEY_SUBPACKET_TYPE, revocation_keys,
+            self.RevocationKeyInfoClass.from_subpacket,
+            lambda k: self._add_subpacket(k.to_subpacket()))
 
     revocation_keys = property(_get_revocation_keys, _set_revocation_keys)
 
@@ -828,14 +829,16 @@ class BaseSignature(object):
             hash_algorithm = sub.hash_algorithm
             pub_algorithm = sub.public_key_algorithm
             for sig in parent.signatures:
-                digest = utils.hash_packet_for_signature(
-                    sig.to_packet(), self.signature_type,
-                    self.signature_version,
-                    hash_algorithm,
-                    self.creation_time,
-                    pub_algorithm,
-                    )
-                if digest == expected_digest:
+                if (sig is self or sig.hash_algorithm != hash_algorithm
+                        or sig.public_key_algorithm != pub_algorithm):
+                    continue
+                # The hash that was signed
+                hash_ = utils.get_hash_instance(hash_algorithm)
+                hash_.update(utils.get_signable_data(
+                    parent, sig.signature_type, sig.version))
+                hash_.update(sig.to_signable_data(sig.signature_type,
+                                                  sig.version))
+                if hash_.hexdigest().upper() == expected_digest:
                     return sig
 
         # Fallback
-- 
2.43.0


From 7aaa6126195635861f5ec5a459f9ed61724e96db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 40/74] fix: report key properties of the newest self-signature

---
 pgp/transferrable_keys.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 595d532..477abdc 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -107,7 +107,12 @@ class SignedMixin(object):
                     self._revocation_sig_types
                     ):
                 continue
-            if last_signature_created < signature.creation_time:
+            creation_time = signature.creation_time
+            if (
+                    creation_time is not None
+                    and last_signature_created < creation_time
+                    ):
+                last_signature_created = creation_time
                 most_recent_selfsig = signature
 
         return most_recent_selfsig
@@ -115,6 +120,7 @@ class SignedMixin(object):
     @staticmethod
     def __selfsig_attribute(name, default=None, revocation=False):
         def getter(self):
+            result = default
             if self.version >= 4:
                 most_recent_selfsig = self.get_most_recent_selfsig(revocation)
                 result = getattr(most_recent_selfsig, name, default)
@@ -152,13 +158,13 @@ class SignedMixin(object):
     may_certify_others = __selfsig_attribute('may_certify_others')
     may_sign_data = __selfsig_attribute('may_sign_data')
     may_encrypt_comms = __selfsig_attribute('may_encrypt_comms')
-    may_encrypt_storage = __selfsig_attribute('may_encrypt_comms')
-    may_be_used_for_auth = __selfsig_attribute('may_encrypt_comms')
+    may_encrypt_storage = __selfsig_attribute('may_encrypt_storage')
+    may_be_used_for_auth = __selfsig_attribute('may_be_used_for_auth')
     may_have_been_split = __selfsig_attribute('may_have_been_split')
     may_have_multiple_owners = \
         __selfsig_attribute('may_have_multiple_owners')
     supports_modification_detection = \
-        __selfsig_attribute('may_have_multiple_owners')
+        __selfsig_attribute('supports_modification_detection')
 
     del __selfsig_attribute
 
-- 
2.43.0


From 785d31f9c3425b4d16e24a134eef3b9a16fa9fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 41/74] fix: accept exactly the keys of the standard and keep
 all of their packets

---
 pgp/shortcuts.py          |   7 +-
 pgp/signature.py          |   9 +++
 pgp/transferrable_keys.py | 157 +++++++++++++++++++++++++-------------
 3 files changed, 116 insertions(+), 57 deletions(-)

diff --git a/pgp/shortcuts.py b/pgp/shortcuts.py
index 5f968f2..0c0088f 100644
--- a/pgp/shortcuts.py
+++ b/pgp/shortcuts.py
@@ -74,10 +74,11 @@ def serialize_key(key, armored=False, header_format=None):
         header_format = constants.OLD_PACKET_HEADER_TYPE
     data = b''.join(map(bytes, key.to_packets(header_format)))
     if armored:
-        if isinstance(key, TransferablePublicKey):
-            data_type = armor.PGP_PUBLIC_KEY_BLOCK
-        elif isinstance(key, TransferableSecretKey):
+        # Secret keys are public keys, too
+        if isinstance(key, TransferableSecretKey):
             data_type = armor.PGP_PRIVATE_KEY_BLOCK
+        elif isinstance(key, TransferablePublicKey):
+            data_type = armor.PGP_PUBLIC_KEY_BLOCK
 
         data = str(armor.ASCIIArmor(
                 data_type, data,
diff --git a/pgp/signature.py b/pgp/signature.py
index 6294077..5bed512 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -14,6 +14,7 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
+import copy
 import datetime
 import re
 import time
@@ -218,6 +219,14 @@ class BaseSignature(object):
             result.extend(utils.int_to_4byte(hashed_subpacket_length + 6))
         return result
 
+    def copy(self, target):
+        """A copy of this signature which belongs to a copy of its target."""
+        result = copy.copy(self)
+        result._target_ref = weakref.ref(target)
+        result.hashed_subpackets = copy.deepcopy(self.hashed_subpackets)
+        result.unhashed_subpackets = copy.deepcopy(self.unhashed_subpackets)
+        return result
+
     def __repr__(self):
         validation = ''
         if self.validated is True:
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 477abdc..99cd580 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -247,8 +247,11 @@ class BasePublicKey(SignedMixin):
         args = self._to_packet_args(header_format)
         return self._PacketClass(*args)
 
+    def _to_public_packet(self):
+        return self.to_packet()
+
     def to_signable_data(self, signature_type, signature_version=3):
-        key_packet_data = self.to_packet().content
+        key_packet_data = self._to_public_packet().content
         key_length = len(key_packet_data)
         result = bytearray([0x99])
         result.extend(utils.int_to_2byte(key_length))
@@ -469,9 +472,9 @@ class BaseSecretKey(BasePublicKey):
         self.checksum = checksum
         self.hash = hash_
 
-    def to_signable_data(self, signature_type, signature_version=3):
-        return self.to_public_key().to_signable_data(signature_type,
-                                                     signature_version)
+    def _to_public_packet(self):
+        return self._PublicClass._PacketClass(
+            *BasePublicKey._to_packet_args(self, self.packet_header_type))
 
     def to_public_key(self):
         key = self._PublicClass(
@@ -700,6 +703,12 @@ class UserID(SignedMixin):
             header_format = self.packet_header_type
         return packets.UserIDPacket(header_format, self.user_id)
 
+    def _copy(self, primary_public_key):
+        result = self.__class__(primary_public_key, self.user_id)
+        result.packet_header_type = self.packet_header_type
+        result.signatures = [sig.copy(result) for sig in self.signatures]
+        return result
+
     def to_signable_data(self, signature_type, signature_version=3):
         result = self.primary_public_key.to_signable_data(signature_type,
                                                           signature_version)
@@ -764,24 +773,37 @@ class UserAttributeContentItem(object):
 
     mime_type = None
     data = None
+    _subpacket = None
 
     @classmethod
     def from_subpacket(cls, subpacket):
-        if subpacket.image_format == C.JPEG_IMAGE_FORMAT:
+        image_format = getattr(subpacket, 'image_format', None)
+        if image_format == C.JPEG_IMAGE_FORMAT:
             mime_type = 'image/jpeg'
         else:
-            mime_type = magic.from_buffer(subpacket.data[:1024],
-                                          mime=True).decode('ascii')
-        return cls(mime_type, subpacket.data)
+            mime_type = magic.from_buffer(bytes(subpacket.data[:1024]),
+                                          mime=True)
+            if isinstance(mime_type, bytes):
+                mime_type = mime_type.decode('ascii')
+        result = cls(mime_type, subpacket.data)
+        result._subpacket = subpacket
+        return result
 
     def __init__(self, mime_type, data):
         self.mime_type = mime_type
         self.data = data
+        self._parsed_values = (mime_type, bytes(data))
 
     def __repr__(self):
-        return '<{0} at 0x{2:x}>'.format(self.__class__.__name__, id(self))
+        return '<{0} at 0x{1:x}>'.format(self.__class__.__name__, id(self))
 
     def to_subpacket(self):
+        if (
+                self._subpacket is not None
+                and self._parsed_values == (self.mime_type, bytes(self.data))
+                ):
+            # Unchanged
+            return self._subpacket
         if self.mime_type.split('/', 1)[0] != 'image':
             return None
         header_version = 1
@@ -822,9 +844,17 @@ class UserAttribute(SignedMixin):
         if header_format is None:
             header_format = self.packet_header_type
         for item in self.content_items:
-            subpackets.append(item.to_subpacket())
+            subpacket = item.to_subpacket()
+            if subpacket is not None:
+                subpackets.append(subpacket)
         return packets.UserAttributePacket(header_format, subpackets)
 
+    def _copy(self, primary_public_key):
+        result = self.__class__(primary_public_key, self.content_items[:])
+        result.packet_header_type = self.packet_header_type
+        result.signatures = [sig.copy(result) for sig in self.signatures]
+        return result
+
     def to_signable_data(self, signature_type, signature_version=3):
         result = self.primary_public_key.to_signable_data(signature_type,
                                                           signature_version)
@@ -861,7 +891,7 @@ def validate_transferrable_key(packets, secret=False):
     else:
         key_packet_type = C.SECRET_KEY_PACKET_TYPE
         subkey_packet_type = C.SECRET_SUBKEY_PACKET_TYPE
-    if packets[0].type != key_packet_type:
+    if not packets or packets[0].type != key_packet_type:
         raise exceptions.InvalidKeyPacketOrder(
                 "The first packet must be a Key Packet")
     pubkey_version = packets[0].version
@@ -887,7 +917,8 @@ def validate_transferrable_key(packets, secret=False):
             if sig_type == C.SIGNATURE_DIRECTLY_ON_A_KEY:
                 for t in type_order[:i]:
                     if t not in (key_packet_type,
-                                 C.SIGNATURE_PACKET_TYPE):
+                                 C.SIGNATURE_PACKET_TYPE,
+                                 C.TRUST_PACKET_TYPE):
                         raise exceptions.InvalidKeyPacketOrder(
                                     "Signature Directly On Key may only "
                                     "appear immediately after the Public Key "
@@ -919,8 +950,9 @@ def validate_transferrable_key(packets, secret=False):
                                     "Key")
             elif sig_type == C.SUBKEY_REVOCATION_SIGNATURE:
                 if (previous != C.SIGNATURE_PACKET_TYPE
-                        or packets[j].signature_type !=
-                        C.SUBKEY_REVOCATION_SIGNATURE):
+                        or packets[j].signature_type not in
+                        (C.SUBKEY_BINDING_SIGNATURE,
+                         C.SUBKEY_REVOCATION_SIGNATURE)):
                     raise exceptions.InvalidKeyPacketOrder(
                                 "Subkey Revocation Signature may only appear "
                                 "after a Subkey Binding Signature")
@@ -939,12 +971,15 @@ def validate_transferrable_key(packets, secret=False):
                             "Invalid signature type for transferrable "
                             "public key, 0x{0:02x}.".format(sig_type))
         elif this == C.USER_ID_PACKET_TYPE:
+            # "User Attribute packets and User ID packets may be freely
+            #  intermixed in this section"
             for t in type_order[:i]:
                 if t not in (key_packet_type, C.SIGNATURE_PACKET_TYPE,
-                             C.USER_ID_PACKET_TYPE, C.TRUST_PACKET_TYPE):
+                             C.USER_ID_PACKET_TYPE,
+                             C.USER_ATTRIBUTE_PACKET_TYPE,
+                             C.TRUST_PACKET_TYPE):
                     raise exceptions.InvalidKeyPacketOrder(
-                                "User IDs must appear before all user "
-                                "attributes and subkeys")
+                                "User IDs must appear before all subkeys")
         elif this == C.USER_ATTRIBUTE_PACKET_TYPE:
             for t in type_order[:i]:
                 if t not in (key_packet_type, C.SIGNATURE_PACKET_TYPE,
@@ -954,12 +989,12 @@ def validate_transferrable_key(packets, secret=False):
                     raise exceptions.InvalidKeyPacketOrder(
                                 "User attributes must appear before all "
                                 "subkeys")
-        elif this in (C.PUBLIC_SUBKEY_PACKET_TYPE,
-                      C.SECRET_SUBKEY_PACKET_TYPE):
+        elif this == subkey_packet_type:
             if pubkey_version < 4:
                 raise exceptions.InvalidKeyPacketType(
                             "V3 keys may not contain subkeys")
-            if (type_order[i + 1] != C.SIGNATURE_PACKET_TYPE
+            if (i + 1 == len(type_order)
+                    or type_order[i + 1] != C.SIGNATURE_PACKET_TYPE
                     or packets[i + 1].signature_type !=
                         C.SUBKEY_BINDING_SIGNATURE):
 
@@ -982,9 +1017,10 @@ class TransferablePublicKey(BasePublicKey):
 
     @classmethod
     def from_packets(cls, packets):
-        # TODO: HANDLE TRUST PACKETS
         packets = list(packets)
         validate_transferrable_key(packets, cls._secret)
+        # Trust packets are not part of the key
+        packets = [p for p in packets if p.type != C.TRUST_PACKET_TYPE]
         i = 0
         primary_public_key = cls.from_packet(packets[i])
         primary_public_key_signatures = []
@@ -998,40 +1034,31 @@ class TransferablePublicKey(BasePublicKey):
             i += 1
 
         primary_public_key.signatures = primary_public_key_signatures
-        user_ids = primary_public_key.user_ids
-        while i < packet_count and packets[i].type == C.USER_ID_PACKET_TYPE:
-            user_id = UserID.from_packet(primary_public_key, packets[i])
-            user_ids.append(user_id)
-            i += 1
-            while (
-                i < packet_count
-                and packets[i].type == C.SIGNATURE_PACKET_TYPE
-                ):
-
-                user_id.signatures.append(
-                        KeySignature.from_packet(packets[i],
-                                                 user_id)
-                    )
-                i += 1
-
-        user_attributes = primary_public_key.user_attributes
         while (
             i < packet_count
-            and packets[i].type == C.USER_ATTRIBUTE_PACKET_TYPE
+            and packets[i].type in (
+                C.USER_ID_PACKET_TYPE,
+                C.USER_ATTRIBUTE_PACKET_TYPE
+                )
             ):
 
-            user_attribute = UserAttribute.from_packet(primary_public_key,
-                                                       packets[i])
-            user_attributes.append(user_attribute)
+            if packets[i].type == C.USER_ID_PACKET_TYPE:
+                identity = UserID.from_packet(primary_public_key, packets[i])
+                primary_public_key.user_ids.append(identity)
+            else:
+                identity = UserAttribute.from_packet(primary_public_key,
+                                                     packets[i])
+                primary_public_key.user_attributes.append(identity)
+            primary_public_key._identity_types.append(packets[i].type)
             i += 1
             while (
                 i < packet_count
                 and packets[i].type == C.SIGNATURE_PACKET_TYPE
                 ):
 
-                user_attribute.signatures.append(
+                identity.signatures.append(
                         KeySignature.from_packet(packets[i],
-                                                 user_attribute)
+                                                 identity)
                     )
                 i += 1
 
@@ -1066,13 +1093,9 @@ class TransferablePublicKey(BasePublicKey):
         packets.append(self.to_packet(header_format))
         for sig in self.signatures:
             packets.append(sig.to_packet(header_format))
-        for user_id in self.user_ids:
-            packets.append(user_id.to_packet(header_format))
-            for sig in user_id.signatures:
-                packets.append(sig.to_packet(header_format))
-        for user_attribute in self.user_attributes:
-            packets.append(user_attribute.to_packet(header_format))
-            for sig in user_attribute.signatures:
+        for identity in self._get_identities():
+            packets.append(identity.to_packet(header_format))
+            for sig in identity.signatures:
                 packets.append(sig.to_packet(header_format))
         for subkey in self.subkeys:
             packets.append(subkey.to_packet(header_format))
@@ -1080,11 +1103,26 @@ class TransferablePublicKey(BasePublicKey):
                 packets.append(sig.to_packet(header_format))
         return packets
 
+    def _get_identities(self):
+        # User IDs and user attributes, intermixed as they were read
+        identities = {
+            C.USER_ID_PACKET_TYPE: list(self.user_ids),
+            C.USER_ATTRIBUTE_PACKET_TYPE: list(self.user_attributes),
+            }
+        result = []
+        for type_ in self._identity_types:
+            if identities[type_]:
+                result.append(identities[type_].pop(0))
+        result.extend(identities[C.USER_ID_PACKET_TYPE])
+        result.extend(identities[C.USER_ATTRIBUTE_PACKET_TYPE])
+        return result
+
     def __init__(self, *args, **kwargs):
         BasePublicKey.__init__(self, *args, **kwargs)
         self.user_ids = []
         self.user_attributes = []
         self.subkeys = []
+        self._identity_types = []
 
 
 @provider(interfaces.ITransferableSecretKeyFactory)
@@ -1101,12 +1139,23 @@ class TransferableSecretKey(BaseSecretKey, TransferablePublicKey):
         self.user_ids = []
         self.user_attributes = []
         self.subkeys = []
+        self._identity_types = []
 
     def to_public_key(self):
+        # Everything attached to the public key refers to it and not to the
+        # secret key.
         key = super(TransferableSecretKey, self).to_public_key()
-        key.user_ids = self.user_ids
-        key.user_attributes = self.user_attributes
-        key.subkeys = list(map(lambda k: k.to_public_key(), self.subkeys))
+        key.signatures = [sig.copy(key) for sig in self.signatures]
+        key.user_ids = [u._copy(key) for u in self.user_ids]
+        key.user_attributes = [u._copy(key) for u in self.user_attributes]
+        key._identity_types = self._identity_types[:]
+        key.subkeys = []
+        for secret_subkey in self.subkeys:
+            subkey = secret_subkey.to_public_key()
+            subkey._primary_public_key_ref = weakref.ref(key)
+            subkey.signatures = [sig.copy(subkey)
+                                 for sig in secret_subkey.signatures]
+            key.subkeys.append(subkey)
         return key
 
     def unlock(self, passphrase):
-- 
2.43.0


From 8a3ef3061f230c6f65dc0bd37adab7afedaf212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 42/74] fix: never write packet types above 15 with old headers

---
 pgp/packets/packets.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 70f6d92..5487c30 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -126,7 +126,11 @@ class Packet(object):
         packet_type = self.type
         tag = 0x80
         result = bytearray()
-        if self.header_format == constants.NEW_PACKET_HEADER_TYPE:
+        # The old header format has no room for types above 15
+        if (
+                self.header_format == constants.NEW_PACKET_HEADER_TYPE
+                or packet_type > 15
+                ):
             remaining = data_length
             offset = 0
             tag += 0x40 + packet_type
-- 
2.43.0


From d26f6ada6ea807f73421d4abdf5a562e5e27d813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 43/74] fix: compare the instants of self-signatures

---
 pgp/transferrable_keys.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 99cd580..a136bcf 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -91,7 +91,9 @@ class SignedMixin(object):
         return bool(self.revocation_signatures)
 
     def get_most_recent_selfsig(self, revocation=False):
-        last_signature_created = datetime.datetime(1900, 1, 1)
+        # Local times are not in the order of the times they stand for when
+        # clocks are turned back
+        last_signature_created = -1
         most_recent_selfsig = None
         for signature in self.signatures:
             if not signature.is_self_signature():
@@ -110,9 +112,9 @@ class SignedMixin(object):
             creation_time = signature.creation_time
             if (
                     creation_time is not None
-                    and last_signature_created < creation_time
+                    and last_signature_created < creation_time.timestamp()
                     ):
-                last_signature_created = creation_time
+                last_signature_created = creation_time.timestamp()
                 most_recent_selfsig = signature
 
         return most_recent_selfsig
-- 
2.43.0


From 639d55cdc03474c8d5c4b1adbece6181d5644fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:56 +0000
Subject: [PATCH 44/74] fix: accept subpackets of no flags and empty strings

---
 pgp/packets/signature_subpackets.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index b4f0b8b..0f106e8 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -383,8 +383,8 @@ class KeyServerPreferencesSubpacket(SignatureSubpacket):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        assert len(sub_data) > 0
-        no_modify = bool(sub_data[0] & 0x80)
+        # "(N octets of flags)"
+        no_modify = bool(sub_data[:1] and sub_data[0] & 0x80)
         return cls(critical, no_modify)
 
     def __init__(self, critical, no_modify):
@@ -401,7 +401,6 @@ class PreferredKeyServerSubpacket(SignatureSubpacket):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        assert len(sub_data) > 0
         uri = sub_data.decode('utf8', 'replace')
         return cls(critical, uri)
 
@@ -445,8 +444,8 @@ class KeyFlagsSubpacket(SignatureSubpacket):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        assert len(sub_data) > 0
-        known_flags = sub_data[0]
+        # "(N octets of flags)"
+        known_flags = sub_data[0] if sub_data else 0
         may_certify_others = bool(known_flags & 0x01)
         may_sign_data = bool(known_flags & 0x02)
         may_encrypt_comms = bool(known_flags & 0x04)
@@ -532,8 +531,9 @@ class FeaturesSubpacket(SignatureSubpacket):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        assert len(sub_data) > 0
-        supports_modification_detection = sub_data[0] & 0x01
+        # "(N octets of flags)"
+        supports_modification_detection = bool(
+            sub_data[:1] and sub_data[0] & 0x01)
         return cls(critical, supports_modification_detection)
 
     def __init__(self, critical, supports_modification_detection):
-- 
2.43.0


From 4dc4f0a3e043d725d1f88387de1e5f8d97d5801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:24 +0000
Subject: [PATCH 45/74] fix: Judge trust signature regular expressions by the
 grammar

---
 pgp/regex.py | 47 +++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/pgp/regex.py b/pgp/regex.py
index c748896..2830dda 100644
--- a/pgp/regex.py
+++ b/pgp/regex.py
@@ -27,7 +27,7 @@ import re
 from pgp.exceptions import RegexValueError
 
 
-re_tokenizer = re.compile(r'(\\.|[\]|*?+()\[]|[^\\])')
+re_tokenizer = re.compile(r'(\\.|[\]|*?+()\[]|.)', re.DOTALL)
 
 
 class Regex(object):
@@ -101,8 +101,13 @@ def validate_partial_subpacket_regex(tokens):
     root.branches.append(current)
     valid = True
     unterminated = False
+    groups = []
     while valid and tokens:
         tok = tokens.pop(0)
+        if isinstance(current, Range) and len(tok) > 1:
+            # There are no escape sequences inside a range
+            tokens.insert(0, tok[1:])
+            tok = tok[0]
         if tok == '|':
             piece = None
             if isinstance(current, Range) and not current.complete:
@@ -135,8 +140,6 @@ def validate_partial_subpacket_regex(tokens):
                 else:
                     piece = current.piece
             elif isinstance(current, Piece):
-                if piece.complete:
-                    valid = False
                 piece = current
             else:
                 valid = False
@@ -154,25 +157,31 @@ def validate_partial_subpacket_regex(tokens):
                     continue
                 current.piece.complete = True
                 branch = current.piece.branch
+            elif isinstance(current, Piece):
+                current.complete = True
+                branch = current.branch
             elif isinstance(current, Branch):
                 branch = current
             piece = Piece(branch)
             branch.pieces.append(piece)
             current = Group(piece)
             piece.atom = current
-            # We don't care about the validity of the sub expression, really,
-            # just so long as we've parsed as much terminated data as we can.
-            unterminated, _valid, sub_expr = validate_partial_subpacket_regex(
-                                        tokens
-                                    )
-            current.content = sub_expr
+            # The sub expression is read next; come back to this one at its
+            # closing parenthesis.
+            groups.append((root, current))
+            root = Regex()
+            current = Branch(root)
+            root.branches.append(current)
         elif tok == ')':
             if isinstance(current, Range) and not current.complete:
                 current.content += tok
                 continue
-            if not isinstance(current, Group):
+            if not groups:
                 valid = False
                 continue
+            sub_expr = str(root)
+            root, current = groups.pop()
+            current.content = sub_expr
             current.complete = True
             current = current.piece
         elif tok == '[':
@@ -185,6 +194,9 @@ def validate_partial_subpacket_regex(tokens):
                     continue
                 current.piece.complete = True
                 branch = current.piece.branch
+            elif isinstance(current, Piece):
+                current.complete = True
+                branch = current.branch
             elif isinstance(current, Branch):
                 branch = current
             piece = Piece(branch)
@@ -205,6 +217,9 @@ def validate_partial_subpacket_regex(tokens):
             else:
                 valid = False
                 continue
+        elif tok == '\\' and not isinstance(current, Range):
+            # Nothing follows to be escaped
+            valid = False
         else:  # .^$ \\
             # anything
             if isinstance(current, Branch):
@@ -233,14 +248,14 @@ def validate_partial_subpacket_regex(tokens):
 
             current.content += (tok)
 
-    if (
-            valid and
-            (isinstance(current, Range) or isinstance(current, Group))
-            and not current.complete
-        ):
-
+    if valid and (isinstance(current, Range) or groups):
         unterminated = True
 
+    while groups:
+        sub_expr = str(root)
+        root, current = groups.pop()
+        current.content = sub_expr
+
     if not valid:
         tokens.insert(0, tok)
     return unterminated, valid, str(root)
-- 
2.43.0


From 0cdf556a737f5fda7d5c1feb1d87c7a1b9e8ee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 46/74] fix: Accept empty trust packets and those of other
 implementations

---
 pgp/packets/packets.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 5487c30..195da83 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1289,12 +1289,13 @@ class TrustPacket(Packet):
         # Implementation-specific
 
         # GnuPG
-        trust_value = int(data[0])
+        trust_value = int(data[0]) if data else None
         sig_cache = None
-        if not trust_value and len(data) == 2:
+        if trust_value == 0 and len(data) == 2:
             sig_cache = int(data[1])
             if sig_cache & 0x80:
-                raise ValueError
+                # Not one of GnuPG's
+                sig_cache = None
 
         result = cls(header_format, trust_value, sig_cache)
         result.other_data = bytearray(data[len(result.content):])
@@ -1325,7 +1326,9 @@ class TrustPacket(Packet):
 
     @property
     def content(self):
-        data = bytearray([self.trust_value])
+        data = bytearray()
+        if self.trust_value is not None:
+            data.append(self.trust_value)
         if self.sig_cache is not None:
             data.append(self.sig_cache)
         data.extend(self.other_data)
-- 
2.43.0


From 950c1232e358a8721800216607d5c8e197fc634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 47/74] fix: Wait for key database locks of others and break
 stale ones

---
 pgp/db/gpg.py | 71 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 24 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 3c7bc67..01cde8e 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -16,6 +16,7 @@
 
 import atexit
 from collections import OrderedDict
+import errno
 try:
     from dbm import gnu as gdbm
     HAVE_GDBM = True
@@ -64,13 +65,13 @@ _locks = []
 @atexit.register
 def _clean_up_locks():
     for l in _locks:
-        l.release()
         try:
-            os.unlink(l.name)
+            while l.locked:
+                l.release()
         except:
             pass
         try:
-            os.unlink(l.lock_template_name)
+            os.unlink(l.template_name)
         except:
             pass
 
@@ -84,10 +85,12 @@ class Lock(object):
     def __init__(self, filename):
         node_name = platform.node()
         dirpart = os.path.dirname(filename)
-        self.template_name = '{0}{1}.#lk{2:x}.'.format(
+        self.template_name = '{0}{1}.#lk{2:x}.{3}.{4}'.format(
             dirpart,
             os.path.sep,
-            id(self)
+            id(self),
+            node_name,
+            os.getpid()
             )
         with open(self.template_name, 'w') as lock_fh:
             lock_fh.write('{0:010d}'.format(os.getpid()))
@@ -97,12 +100,13 @@ class Lock(object):
             filename,
             os.path.extsep)
         self._lock = threading.RLock()
+        self._depth = 0
         _locks.append(self)
 
     def __del__(self):
         try:
             self.release()
-            os.unlink(self.lock_template_name)
+            os.unlink(self.template_name)
         except:
             # TODO: log an error
             pass
@@ -114,38 +118,57 @@ class Lock(object):
 
         return pid, node == platform.node()
 
+    def _is_stale(self):
+        try:
+            pid, same_node = self.read()
+        except (IOError, ValueError):
+            # Released in the meantime
+            return False
+        if not same_node:
+            return False
+        try:
+            os.kill(pid, signal.SIG_DFL)
+        except OSError as e:
+            return e.errno == errno.ESRCH
+        return False
+
     def acquire(self, timeout=None):
         start = time.time()
+        self._lock.acquire()
         while not self.locked:
+            try:
+                os.link(self.template_name, self.name)
+            except OSError as e:
+                if e.errno != errno.EEXIST:
+                    self._lock.release()
+                    raise
+            else:
+                self.locked = True
+                break
+            if self._is_stale():
+                # The process which held the lock is gone
+                try:
+                    os.unlink(self.name)
+                except OSError:
+                    pass
+                continue
             if timeout is not None and (time.time() - start) > timeout:
+                self._lock.release()
                 return False
-            self._lock.acquire()
-            os.link(self.template_name, self.name)
-            pid, same_node = self.read()
-            if pid == os.getpid() and same_node:
-                # OK
-                pass
-            elif same_node:
-                # attempt to kill the interloper
-                os.kill(pid, signal.SIG_DFL)
-                os.unlink(self.name)
-                continue
-            self.locked = True
+            time.sleep(0.01)
 
+        self._depth += 1
         return True
 
     def release(self):
         if not self.locked:
             return
 
-        pid, same_node = self.read()
-        if pid == os.getpid() and same_node:
+        self._depth -= 1
+        if not self._depth:
             os.unlink(self.name)
             self.locked = False
-            self._lock.release()
-        else:
-            # TODO: error?
-            return
+        self._lock.release()
 
 
 class ResourceTypes:
-- 
2.43.0


From b6e6f6ee969d559bfdd0b8acc98ebb2a8b888ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 48/74] fix: Key database: find keys by their whole identity,
 keep the others on changes

---
 pgp/db/gpg.py | 132 +++++++++++++++++++++++++-------------------------
 1 file changed, 67 insertions(+), 65 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 01cde8e..b201e6a 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -198,7 +198,20 @@ class BaseResource(object):
             yield self.get_transferrable_key(k)
 
     def __iter__(self):
-        return self.keys()
+        return iter(self.keys())
+
+    def find(self, key_id):
+        """The fingerprints of the keys which have this fingerprint, key ID
+        or short key ID.
+        """
+        if len(key_id) > 16:
+            return [k for k in self.keys() if k == key_id]
+        return [k for k in self.keys() if self._key_id(k).endswith(key_id)]
+
+    def _find_one(self, key_id):
+        for fingerprint in self.find(key_id):
+            return fingerprint
+        raise KeyError(key_id)
 
     def __contains__(self, fingerprint):
         return fingerprint in self.keys()
@@ -212,7 +225,7 @@ class BaseResource(object):
     def _maybe_create(self, force):
         if not os.path.exists(self.filename):
             if force:
-                self.create_db(self.filename)
+                self.create_db()
             else:
                 raise RuntimeError(
                     'Database {0} does not exist.'.format(self.filename))
@@ -322,18 +335,24 @@ class GDBM(BaseResource):
 class Keyring(BaseResource):
 
     _offset_table = None
+    _key_ids = None
+    _preferred_header_format = None
 
     def __init__(self, filename, force, secret, read_only, default):
         super(Keyring, self).__init__(filename, force, secret, read_only,
                                       default)
-        self._preferred_header_format = None
         self._update_offset_table()
 
     def keys(self):
-        return self._offset_table.keys()
+        self._update_offset_table()
+        return list(self._offset_table)
+
+    def _key_id(self, fingerprint):
+        return self._key_ids[fingerprint]
 
     def _update_offset_table(self):
-        offset_table = {}
+        offset_table = OrderedDict()
+        key_ids = {}
         self.lock_db()
         try:
             with open(self.filename, 'rb') as fh:
@@ -346,12 +365,14 @@ class Keyring(BaseResource):
                             constants.PUBLIC_KEY_PACKET_TYPE,
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
-                        offset_table[packet.key_id[-8:]] = last_offset
+                        offset_table[packet.fingerprint] = last_offset
+                        key_ids[packet.fingerprint] = packet.key_id
                     last_offset = fh.tell()
         finally:
             self.unlock_db()
 
         self._offset_table = offset_table
+        self._key_ids = key_ids
 
     def _get_key(self, offset):
         self.lock_db()
@@ -394,18 +415,22 @@ class Keyring(BaseResource):
             self.unlock_db()
 
     def get_transferrable_key(self, fingerprint):
-        offset = self._offset_table[fingerprint[-8:]]
-        return self._get_key(offset)
+        self.lock_db()
+        try:
+            fingerprint = self._find_one(fingerprint)
+            return self._get_key(self._offset_table[fingerprint])
+        finally:
+            self.unlock_db()
 
     def add_transferrable_key(self, key):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint in self._offset_table:
-            raise KeyError
-
         self.lock_db()
         try:
+            if key.fingerprint in self.keys():
+                raise KeyError(key.fingerprint)
+
             data = b''
             with open(self.filename, 'rb') as fh:
                 data = fh.read()
@@ -424,12 +449,12 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint[-8:] not in self._offset_table:
-            raise KeyError
-
-        offset = self._offset_table[key.fingerprint[-8:]]
         self.lock_db()
         try:
+            if key.fingerprint not in self.keys():
+                raise KeyError(key.fingerprint)
+
+            offset = self._offset_table[key.fingerprint]
             data = b''
             with open(self.filename, 'rb') as fh:
                 data = fh.read(offset)
@@ -444,6 +469,7 @@ class Keyring(BaseResource):
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
                         break
+                    packets.append(packet)
                     last_offset = fh.tell()
                 fh.seek(last_offset)
                 data += fh.read()
@@ -458,12 +484,12 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint[-8:] not in self._offset_table:
-            raise KeyError
-
-        offset = self._offset_table[key.fingerprint[-8:]]
         self.lock_db()
         try:
+            if key.fingerprint not in self.keys():
+                raise KeyError(key.fingerprint)
+
+            offset = self._offset_table[key.fingerprint]
             data = b''
             with open(self.filename, 'rb') as fh:
                 data = fh.read(offset)
@@ -478,6 +504,7 @@ class Keyring(BaseResource):
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
                         break
+                    packets.append(packet)
                     last_offset = fh.tell()
                 fh.seek(last_offset)
                 data += fh.read()
@@ -494,10 +521,10 @@ def get_resource(filename, force=False, secret=False, read_only=False,
     type_ = ResourceTypes.NONE
     if filename.startswith('gnupg-keyring:'):
         type_ = ResourceTypes.KEYRING
-        filename = filename[12:]
+        filename = filename[len('gnupg-keyring:'):]
     elif filename.startswith('gnupg-kbx:'):
         type_ = ResourceTypes.KEYBOX
-        filename = filename[11:]
+        filename = filename[len('gnupg-kbx:'):]
     filename = os.path.abspath(filename)
 
     if type_ == ResourceTypes.NONE:
@@ -548,47 +575,24 @@ class GPGDatabase(object):
         resource = self.register_resource(resource.filename, resource, primary)
         return resource
 
+    def _get_resource_for_key(self, key):
+        # Secret keys are public keys, too
+        secret = isinstance(key, TransferableSecretKey)
+        if not secret and not isinstance(key, TransferablePublicKey):
+            raise TypeError(key)
+        for resource in self._resources.values():
+            if bool(resource.secret) == secret:
+                return resource
+        raise ValueError('There is no database for this type of key')
+
     def add_key(self, key):
-        if isinstance(key, TransferablePublicKey):
-            for resource in self._resources.values():
-                if not resource.secret:
-                    resource.add_transferrable_key(key)
-                    break
-        elif isinstance(key, TransferableSecretKey):
-            for resource in self._resources.values():
-                if resource.secret:
-                    resource.add_transferrable_key(key)
-                    break
-        else:
-            raise TypeError
+        self._get_resource_for_key(key).add_transferrable_key(key)
 
     def delete_key(self, key):
-        if isinstance(key, TransferablePublicKey):
-            for resource in self._resources.values():
-                if not resource.secret:
-                    resource.delete_transferrable_key(key)
-                    break
-        elif isinstance(key, TransferableSecretKey):
-            for resource in self._resources.values():
-                if resource.secret:
-                    resource.delete_transferrable_key(key)
-                    break
-        else:
-            raise TypeError
+        self._get_resource_for_key(key).delete_transferrable_key(key)
 
     def update_key(self, key):
-        if isinstance(key, TransferablePublicKey):
-            for resource in self._resources.values():
-                if not resource.secret:
-                    resource.update_transferrable_key(key)
-                    break
-        elif isinstance(key, TransferableSecretKey):
-            for resource in self._resources.values():
-                if resource.secret:
-                    resource.update_transferrable_key(key)
-                    break
-        else:
-            raise TypeError
+        self._get_resource_for_key(key).update_transferrable_key(key)
 
     def register_resource(self, name, resource, primary):
         resource = self._resources.setdefault(name, resource)
@@ -615,15 +619,13 @@ class GPGDatabase(object):
             return results
         for resource in self._resources.values():
             if fingerprint or key_id:
-                try:
-                    key = resource.get_transferrable_key(fingerprint or key_id)
-                except KeyError:
-                    continue
-                if user_id is not None:
-                    if self._matches_user_id(key, user_id):
+                for match in resource.find(fingerprint or key_id):
+                    key = resource.get_transferrable_key(match)
+                    if user_id is not None:
+                        if self._matches_user_id(key, user_id):
+                            results.append(key)
+                    else:
                         results.append(key)
-                else:
-                    results.append(key)
             else:
                 # User ID only. Be really dumb and iterate.
                 for key in resource.values():
-- 
2.43.0


From 3b5bb2b0477ce3c0518c48aa40aa1ffc0e744024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 49/74] fix: Make GDBM key databases usable

---
 pgp/db/gpg.py | 68 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 31 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index b201e6a..a422477 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -40,8 +40,14 @@ from pgp.transferrable_keys import TransferableSecretKey
 
 
 GDBM_MAGIC = (
-    b'\x13\x57\x9a\xce'
-    b'\xce\x9a\x57\x13'
+    # as written originally
+    b'\x13\x57\x9a\xce',
+    b'\xce\x9a\x57\x13',
+    # with 32 bit and 64 bit offsets
+    b'\x13\x57\x9a\xcd',
+    b'\xcd\x9a\x57\x13',
+    b'\x13\x57\x9a\xcf',
+    b'\xcf\x9a\x57\x13',
 )
 
 
@@ -233,59 +239,59 @@ class BaseResource(object):
 
 class GDBM(BaseResource):
 
+    _preferred_header_format = constants.OLD_PACKET_HEADER_TYPE
+
     def __init__(self, *args, **kwargs):
         super(GDBM, self).__init__(*args, **kwargs)
-        first_key = self.firstkey()
-        if first_key is not None:
-            packet = next(parse_binary_packet_data(self[first_key]))
+        for fingerprint in self.keys():
+            packet = next(parse_binary_packet_data(self._get(fingerprint)))
             self._preferred_header_format = packet.header_format
-        else:
-            self._preferred_header_format = constants.OLD_PACKET_HEADER_TYPE
+            break
 
     def keys(self):
         self.lock_db()
         try:
+            keys = []
             with gdbm.open(self.filename, 'r') as db:
                 key = db.firstkey()
                 while key is not None:
-                    yield key
+                    keys.append(key.decode('ascii'))
                     key = db.nextkey(key)
+            return keys
         finally:
             self.unlock_db()
 
-    def create_db(self):
+    def _get(self, fingerprint):
         self.lock_db()
         try:
-            with gdbm.open(self.filename, 'c'):
-                os.chmod(self.filename, 0o600)
+            with gdbm.open(self.filename, 'r') as db:
+                return bytearray(db[fingerprint])
         finally:
             self.unlock_db()
 
-    def get_transferrable_key(self, fingerprint):
-        if len(fingerprint) != 40:
-            # Actually a key ID - find the fingerprint first.
-            fingerprint = ([
-                k for k in self.keys()
-                if k.endswith(fingerprint)
-                ] + [None]
-                )[0]
-
-        if fingerprint is None:
-            return None
+    def _key_id(self, fingerprint):
+        if len(fingerprint) == 40:
+            return fingerprint[-16:]
+        # The key ID of an old key is not part of its fingerprint
+        return next(parse_binary_packet_data(self._get(fingerprint))).key_id
 
+    def create_db(self):
         self.lock_db()
         try:
-            with gdbm.open(self.filename, 'r') as db:
-                packet_data = db[fingerprint]
-            packets = list(parse_binary_packet_data(packet_data))
-            if packets:
-                if packets[0].type == constants.PUBLIC_KEY_PACKET_TYPE:
-                    return TransferablePublicKey.from_packets(packets)
-                elif packets[0].type == constants.SECRET_KEY_PACKET_TYPE:
-                    return TransferableSecretKey.from_packets(packets)
+            with gdbm.open(self.filename, 'c'):
+                os.chmod(self.filename, 0o600)
         finally:
             self.unlock_db()
 
+    def get_transferrable_key(self, fingerprint):
+        packets = list(parse_binary_packet_data(
+            self._get(self._find_one(fingerprint))))
+        if packets:
+            if packets[0].type == constants.PUBLIC_KEY_PACKET_TYPE:
+                return TransferablePublicKey.from_packets(packets)
+            elif packets[0].type == constants.SECRET_KEY_PACKET_TYPE:
+                return TransferableSecretKey.from_packets(packets)
+
     def add_transferrable_key(self, key):
         if self.read_only:
             raise TypeError
@@ -326,8 +332,8 @@ class GDBM(BaseResource):
             with gdbm.open(self.filename, 'w') as db:
                 if key.fingerprint not in db:
                     raise KeyError(key.fingerprint)
-                gdbm.reorganize()
                 del db[key.fingerprint]
+                db.reorganize()
         finally:
             self.unlock_db()
 
-- 
2.43.0


From 139fbba4a7ffd517bdfd1dcd8a325c817cba662b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 50/74] fix: Read the header format of a GDBM key database
 under its lock

---
 pgp/db/gpg.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index a422477..107cfc8 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -243,10 +243,14 @@ class GDBM(BaseResource):
 
     def __init__(self, *args, **kwargs):
         super(GDBM, self).__init__(*args, **kwargs)
-        for fingerprint in self.keys():
-            packet = next(parse_binary_packet_data(self._get(fingerprint)))
-            self._preferred_header_format = packet.header_format
-            break
+        self.lock_db()
+        try:
+            for fingerprint in self.keys():
+                packet = next(parse_binary_packet_data(self._get(fingerprint)))
+                self._preferred_header_format = packet.header_format
+                break
+        finally:
+            self.unlock_db()
 
     def keys(self):
         self.lock_db()
-- 
2.43.0


From c5e85b459d0833d5f6bcd2a2fd469f5e98c2a5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 51/74] fix: Split and compose user IDs without losing or
 inventing parts

---
 pgp/transferrable_keys.py |  7 +---
 pgp/user_id.py            | 79 ++++++++++++++++++++++++++++++++++-----
 2 files changed, 71 insertions(+), 15 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index a136bcf..41d7912 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -15,7 +15,6 @@
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
 import datetime
-import email.utils
 import time
 import weakref
 
@@ -31,6 +30,7 @@ from pgp.packets import packets
 from pgp.packets import signature_subpackets
 from pgp.packets import user_attribute_subpackets
 from pgp.signature import BaseSignature
+from pgp.user_id import make_user_id
 from pgp.user_id import parse_user_id
 from pgp import utils
 
@@ -737,10 +737,7 @@ class UserID(SignedMixin):
         return self._primary_public_key_ref()
 
     def _make_user_id(self, name, emailaddr, comment):
-        result = email.utils.formataddr((name, emailaddr), 'utf8')
-        if comment:
-            result = u"{0} ({1})".format(result, comment)
-        return result
+        return make_user_id(name, emailaddr, comment)
 
     def _get_user_name(self):
         return parse_user_id(self.user_id)[0]
diff --git a/pgp/user_id.py b/pgp/user_id.py
index 8dc93a6..af82982 100644
--- a/pgp/user_id.py
+++ b/pgp/user_id.py
@@ -2,7 +2,8 @@
 # from its rfc822 module. We lift it here because the parsing we need isn't
 # exposed in the public API and is subject to change or removal.
 #
-# There are no changes to the AddrlistClass used here.
+# The AddrlistClass used here keeps the parentheses of nested comments and
+# reads them without recursion.
 #
 # Copyright (C) 2001-2014 Python Software Foundation; All Rights Reserved
 # This code is based on work by the Python Software Foundation, released
@@ -12,10 +13,8 @@
 """User ID parsing code."""
 
 
-try:
-    from urllib.parse import quote
-except ImportError:
-    from urllib import quote
+from email.utils import quote
+import re
 
 
 EMPTYSTRING = ''
@@ -239,18 +238,22 @@ class AddrlistClass:
             return ''
 
         slist = ['']
+        nested = 0
         quote = False
         self.pos += 1
         while self.pos < len(self.field):
             if quote:
                 slist.append(self.field[self.pos])
                 quote = False
+            elif nested and self.field[self.pos] == ')':
+                nested -= 1
+                slist.append(')')
             elif self.field[self.pos] in endchars:
                 self.pos += 1
                 break
             elif allowcomments and self.field[self.pos] == '(':
-                slist.append(self.getcomment())
-                continue        # have already advanced pos from getcomment
+                nested += 1
+                slist.append('(')
             elif self.field[self.pos] == '\\':
                 quote = True
             else:
@@ -316,8 +319,64 @@ class AddrlistClass:
 
 
 def parse_user_id(user_id):
+    """Split a user ID into name, e-mail address and comment. Parts which are
+    absent are empty.
+    """
     a = AddrlistClass(user_id)
-    user_name, user_email = a.getaddress()[0]
-    user_comment = ' '.join(a.commentlist)
-    user_name = user_name.replace(user_comment, '').strip()
+    plist = a.getphraselist()
+    user_email = EMPTYSTRING
+    if a.pos < len(user_id) and user_id[a.pos] == '<':
+        user_email = a.getrouteaddr()
+        a.gotonext()
+    elif not plist or (a.pos < len(user_id) and user_id[a.pos] in '.@'):
+        # Only an address
+        a = AddrlistClass(user_id)
+        plist = []
+        user_email = a.getaddrspec()
+        a.gotonext()
+
+    if a.pos < len(user_id):
+        # This isn't what RFC 2822 says. Special characters may have been
+        # left unquoted.
+        return _parse_unquoted_user_id(user_id)
+
+    return SPACE.join(plist), user_email, SPACE.join(a.commentlist)
+
+
+def _parse_unquoted_user_id(user_id):
+    user_name = user_id.strip()
+    user_email = user_comment = EMPTYSTRING
+    if user_name.endswith('>') and '<' in user_name:
+        user_name, user_email = user_name[:-1].rsplit('<', 1)
+        user_name = user_name.rstrip()
+    if user_name.endswith(')') and '(' in user_name:
+        user_name, user_comment = user_name[:-1].rsplit('(', 1)
+        user_name = user_name.rstrip()
     return user_name, user_email, user_comment
+
+
+def make_user_id(user_name, user_email, user_comment):
+    """Compose a user ID: the opposite of parse_user_id."""
+    parts = []
+    if user_name:
+        if (re.search(r'[()<>@,:;\\"\[\]\r\n\t]', user_name)
+                or '' in user_name.split(SPACE)):
+            user_name = '"{0}"'.format(
+                re.sub(r'([\\"\r])', r'\\\1', user_name))
+        parts.append(user_name)
+    if user_comment:
+        special = r'([\\\r])'
+        depth = 0
+        for c in user_comment:
+            depth += (c == '(') - (c == ')')
+            if depth < 0:
+                break
+        if depth:
+            # The parentheses don't match
+            special = r'([\\\r()])'
+        parts.append('({0})'.format(re.sub(special, r'\\\1', user_comment)))
+    if user_email:
+        if parts or '@' not in user_email:
+            user_email = '<{0}>'.format(user_email)
+        parts.append(user_email)
+    return SPACE.join(parts)
-- 
2.43.0


From 3d5bbaad07c589da731419d6e4dc8ba1e5b3bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:18 +0000
Subject: [PATCH 52/74] fix: Read index answers with empty fields and name the
 right server

---
 pgp/keyserver/hkp.py | 56 ++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 23e3d87..27c2d25 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -24,6 +24,10 @@ import requests
 
 from pgp import armor
 from pgp.shortcuts import read_key
+from pgp.transferrable_keys import TransferableSecretKey
+
+
+HKP_PORT = 11371
 
 
 def _add_colons(line, number):
@@ -35,6 +39,19 @@ def _add_colons(line, number):
     return line
 
 
+def _parse_int(field):
+    # Any field may be empty
+    if field:
+        return int(field)
+    return None
+
+
+def _parse_time(field):
+    if field:
+        return datetime.datetime.fromtimestamp(int(field))
+    return None
+
+
 class HKPUserIdResult(object):
 
     def __repr__(self):
@@ -53,11 +70,8 @@ class HKPUserIdResult(object):
         l = _add_colons(l, 4)
         _uid, uid, created, expires, flags = l.split(':')
         self.user_id = unquote(uid)
-        self.created = datetime.datetime.fromtimestamp(int(created))
-        if expires:
-            self.expires = datetime.datetime.fromtimestamp(int(expires))
-        else:
-            self.expires = None
+        self.created = _parse_time(created)
+        self.expires = _parse_time(expires)
         self.revoked = 'r' in flags
         self.disabled = 'd' in flags
         self.expired = 'e' in flags
@@ -87,13 +101,10 @@ class HKPResult(object):
         (_pub, key_id, public_key_algorithm, bit_length,
             created, expires, flags) = l.split(':')
         self.key_id = key_id
-        self.public_key_algorithm = int(public_key_algorithm)
-        self.bit_length = int(bit_length)
-        self.created = datetime.datetime.fromtimestamp(int(created))
-        if expires:
-            self.expires = datetime.datetime.fromtimestamp(int(expires))
-        else:
-            self.expires = None
+        self.public_key_algorithm = _parse_int(public_key_algorithm)
+        self.bit_length = _parse_int(bit_length)
+        self.created = _parse_time(created)
+        self.expires = _parse_time(expires)
         self.revoked = 'r' in flags
         self.disabled = 'd' in flags
         self.expired = 'e' in flags
@@ -112,9 +123,13 @@ class HKPKeyserverClient(object):
 
     def __init__(self, base_url):
         parts = urlparse(base_url)
+        scheme = parts.scheme.lower()
+        netloc = parts.netloc
+        if scheme == 'hkp' and parts.port is None:
+            netloc = '{0}:{1}'.format(netloc.rstrip(':'), HKP_PORT)
         base_url = urlunparse(
-            (('https' if parts.scheme.lower() == 'hkps' else 'http'),)
-            + parts[1:6])
+            (('https' if scheme in ('hkps', 'https') else 'http'), netloc)
+            + parts[2:6])
         self.base_url = base_url
 
     @property
@@ -127,14 +142,6 @@ class HKPKeyserverClient(object):
 
     def _read_mr(self, data):
         data = data.splitlines()
-        info_line = data[0]
-        if info_line.startswith('info:'):
-            _info, version, count = info_line.split(':')
-        else:
-            version = 1
-            count = None
-
-        del version, count  # unused
 
         results = []
         pub_key = None
@@ -162,7 +169,8 @@ class HKPKeyserverClient(object):
             'exact': 'yes' if exact else 'no',
             })
         response.raise_for_status()
-        return read_key(response.content, True)
+        # The headers of the armor may be in any language
+        return read_key(response.content.decode('utf8', 'replace'), True)
 
     def search(self, terms, exact=False):
         response = requests.get(self.get_url, params={
@@ -175,6 +183,8 @@ class HKPKeyserverClient(object):
         return self._read_mr(response.text)
 
     def submit(self, key, no_modify=False):
+        if isinstance(key, TransferableSecretKey):
+            key = key.to_public_key()
         key_data = b''.join(map(bytes, key.to_packets()))
         a = armor.ASCIIArmor(armor.PGP_PUBLIC_KEY_BLOCK, key_data)
         response = requests.post(self.submit_url, data={
-- 
2.43.0


From 483911aa3c81f7d3e9019d1e1b8509c9fdb0bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 53/74] fix: Refuse packets whose body is truncated or whose
 first octet is not a packet tag

---
 pgp/packets/packets.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 195da83..20f1d97 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1592,6 +1592,13 @@ PACKET_TYPES = {
     }
 
 
+def _read_exactly(fh, length):
+    data = fh.read(length)
+    if len(data) < length:
+        raise ValueError('The packet is truncated.')
+    return data
+
+
 def packet_from_packet_stream(fh):
     """Parse a packet from the given data starting at the offset
     and return a tuple of the length of data consumed and a packet
@@ -1600,6 +1607,8 @@ def packet_from_packet_stream(fh):
 
     packet_data = bytearray()
     first = ord(fh.read(1))
+    if not first & 0x80:
+        raise ValueError('This is not the start of a packet.')
     tag = first & 0x3f
     header_type = (
             constants.NEW_PACKET_HEADER_TYPE
@@ -1614,7 +1623,7 @@ def packet_from_packet_stream(fh):
             # Indeterminate length, the body extends to the end of the stream.
             packet_data.extend(fh.read())
         else:
-            packet_data.extend(fh.read(data_length))
+            packet_data.extend(_read_exactly(fh, data_length))
     else:
         # Only the first chunk is preceded by a tag, the others just have their
         # own length header.
@@ -1622,7 +1631,7 @@ def packet_from_packet_stream(fh):
         while incomplete:
             data_length, incomplete = \
                 utils.new_packet_length_from_stream(fh)
-            packet_data.extend(fh.read(data_length))
+            packet_data.extend(_read_exactly(fh, data_length))
 
     cls = PACKET_TYPES.get(tag, Packet)
 
@@ -1640,7 +1649,9 @@ def packet_from_packet_data(data, offset=0):
     incomplete = True
     tag = None
     while incomplete:
-        if not tag:
+        if tag is None:
+            if not data[offset] & 0x80:
+                raise ValueError('This is not the start of a packet.')
             tag = data[offset] & 0x3f
             header_type = (
                     constants.NEW_PACKET_HEADER_TYPE
@@ -1659,6 +1670,8 @@ def packet_from_packet_data(data, offset=0):
             offset, data_length = utils.old_packet_length(data, offset)
             incomplete = False
 
+        if offset + data_length > len(data):
+            raise ValueError('The packet is truncated.')
         packet_data.extend(data[offset:offset + data_length])
         offset += data_length
 
-- 
2.43.0


From 967b71d7294edaad5cddeaf92b910e8df6a2346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 54/74] fix: Refuse packets with overrunning subpackets or
 trailing octets

---
 pgp/packets/packets.py                   | 13 +++++++++---
 pgp/packets/signature_subpackets.py      |  7 +-----
 pgp/packets/user_attribute_subpackets.py | 27 +++++++++++++++++-------
 pgp/utils.py                             | 16 ++++++++++++++
 4 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 20f1d97..411c42e 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -363,9 +363,10 @@ class SignaturePacket(Packet):
             offset += 2
             subpacket_end = offset + length
             hashed_subpackets = []
+            hashed_data = data[:subpacket_end]
             while offset < subpacket_end:
                 hashed_subpacket, offset = \
-                    signature_subpacket_from_data(data, offset)
+                    signature_subpacket_from_data(hashed_data, offset)
                 hashed_subpackets.append(hashed_subpacket)
 
             # followed by subpackets
@@ -373,9 +374,10 @@ class SignaturePacket(Packet):
             offset += 2
             subpacket_end = offset + length
             unhashed_subpackets = []
+            unhashed_data = data[:subpacket_end]
             while offset < subpacket_end:
                 unhashed_subpacket, offset = \
-                    signature_subpacket_from_data(data, offset)
+                    signature_subpacket_from_data(unhashed_data, offset)
                 unhashed_subpackets.append(unhashed_subpacket)
 
             hash2 = data[offset:offset + 2]
@@ -659,6 +661,8 @@ class OnePassSignaturePacket(Packet):
         offset += 8
         nested = data[offset]
         offset += 1
+        if offset < len(data):
+            raise ValueError('The one-pass signature packet is too long.')
         result = cls(header_format, version, signature_type, hash_algorithm,
                      public_key_algorithm, key_id, nested)
         result._content = data
@@ -748,7 +752,9 @@ class PublicKeyPacket(Packet):
 
     @classmethod
     def from_packet_content(cls, header_format, type_, data):
-        _offset, values = cls._values_from_packet_contents(data)
+        offset, values = cls._values_from_packet_contents(data)
+        if offset < len(data):
+            raise ValueError('The public key packet is too long.')
 
         result = cls(header_format, *values)
         result._content = data
@@ -892,6 +898,7 @@ class SecretKeyPacket(PublicKeyPacket):
             offset += block_length
 
         encrypted_portion = data[offset:]
+        offset = len(data)
         hash_ = s2k_usage == 254
         checksum = not hash_
 
diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 0f106e8..4c3e696 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -654,12 +654,7 @@ SIGNATURE_SUBPACKET_TYPES = {
 
 def signature_subpacket_from_data(data, offset=0):
     start = offset
-    if 224 <= data[offset] < 255:
-        # Subpackets have no partial lengths, this is a two-octet length
-        length = utils.short_to_int(data, offset) - (192 << 8) + 192
-        offset += 2
-    else:
-        offset, length, _ = utils.new_packet_length(data, offset)
+    offset, length = utils.subpacket_length(data, offset)
     tag = data[offset]
     subpacket_type = tag & 0x7f
     critical = bool(tag & 0x80)
diff --git a/pgp/packets/user_attribute_subpackets.py b/pgp/packets/user_attribute_subpackets.py
index 1bd6ad8..54bcd75 100644
--- a/pgp/packets/user_attribute_subpackets.py
+++ b/pgp/packets/user_attribute_subpackets.py
@@ -20,6 +20,12 @@ from pgp import utils
 
 class UserAttributeSubpacket(object):
 
+    # The octets this subpacket was read from and what we would have written
+    # instead. Signatures are made over these octets so they must not change
+    # unless the values do.
+    _parsed_data = None
+    _parsed_values = None
+
     @classmethod
     def from_subpacket_content(cls, sub_type, sub_data):
         return cls(sub_type, sub_data)
@@ -39,8 +45,14 @@ class UserAttributeSubpacket(object):
     def content(self):
         return bytearray(self.data)
 
+    def keep_parsed_data(self, data):
+        self._parsed_data = bytes(data)
+        self._parsed_values = (self.sub_type, bytes(self.content))
+
     def __bytes__(self):
         data = self.content
+        if self._parsed_values == (self.sub_type, bytes(data)):
+            return self._parsed_data
         result = bytearray()
         # +1 for sub type
         result.extend(utils.new_packet_length_to_bytes(
@@ -62,6 +74,8 @@ class ImageAttributeSubpacket(UserAttributeSubpacket):
         #  values in this document, due to a historical accident this
         #  value is encoded as a little-endian number."
         header_length = sub_data[0] + (sub_data[1] << 8)
+        if header_length > len(sub_data):
+            raise ValueError('The image header is truncated.')
         header_version = sub_data[2]
         image_format = None
         if header_version == 1:
@@ -121,13 +135,8 @@ USER_ATTRIBUTE_SUBPACKET_TYPES = {
 
 def user_attribute_subpacket_from_data(data, offset=0):
     sub_data = bytearray()
-    offset, sub_len, sub_partial = utils.new_packet_length(data, offset)
-    if sub_partial:
-        # "An implementation MAY use Partial Body Lengths for data
-        #  packets, be they literal, compressed, or encrypted.  [...]
-        #  Partial Body Lengths MUST NOT be used for any other packet
-        #  types."
-        raise ValueError
+    start = offset
+    offset, sub_len = utils.subpacket_length(data, offset)
     sub_type = int(data[offset])
     # + 1 for sub type
     sub_data_start = offset + 1
@@ -135,4 +144,6 @@ def user_attribute_subpacket_from_data(data, offset=0):
     sub_data.extend(data[sub_data_start:sub_data_end])
     offset = sub_data_end
     cls = USER_ATTRIBUTE_SUBPACKET_TYPES.get(sub_type, UserAttributeSubpacket)
-    return cls.from_subpacket_content(sub_type, sub_data), offset
+    subpacket = cls.from_subpacket_content(sub_type, sub_data)
+    subpacket.keep_parsed_data(data[start:offset])
+    return subpacket, offset
diff --git a/pgp/utils.py b/pgp/utils.py
index cc4f2c2..3d9c969 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -741,6 +741,22 @@ def new_packet_length(data, offset):
     return offset, length, partial
 
 
+def subpacket_length(data, offset):
+    """Read the length of a signature or user attribute subpacket."""
+
+    if 224 <= data[offset] < 255:
+        # Subpackets have no partial lengths, this is a two-octet length
+        length = short_to_int(data, offset) - (192 << 8) + 192
+        offset += 2
+    else:
+        offset, length, _ = new_packet_length(data, offset)
+    if not length:
+        raise ValueError('The subpacket has no type.')
+    if offset + length > len(data):
+        raise ValueError('The subpacket is truncated.')
+    return offset, length
+
+
 def new_packet_length_to_bytes(data_length, allow_partial):
     result = bytearray()
     remaining = 0
-- 
2.43.0


From 49254390bfaaf00b05849cb2e4ba445c6533d35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:44 +0000
Subject: [PATCH 55/74] fix: Do not allocate what a packet length claims

---
 pgp/packets/packets.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 411c42e..a1794c8 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1600,9 +1600,14 @@ PACKET_TYPES = {
 
 
 def _read_exactly(fh, length):
-    data = fh.read(length)
-    if len(data) < length:
-        raise ValueError('The packet is truncated.')
+    # The length may be anything, do not allocate as much before the data has
+    # been read.
+    data = bytearray()
+    while len(data) < length:
+        chunk = fh.read(min(length - len(data), 1 << 20))
+        if not chunk:
+            raise ValueError('The packet is truncated.')
+        data.extend(chunk)
     return data
 
 
-- 
2.43.0


From 4dba1404c576c672b21832c7a819ec88786da031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 56/74] fix: Split armor lines only at line ends

---
 pgp/armor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/armor.py b/pgp/armor.py
index b138dae..86b2eab 100644
--- a/pgp/armor.py
+++ b/pgp/armor.py
@@ -38,6 +38,7 @@ data_types = {
 
 
 DASHES = '-----'
+LINE_ENDING = re.compile('\r\n|\r|\n')
 header_line_expr = re.compile(
     '^{dashes}BEGIN (?:'
     '(?P<message>{message})(?:, PART '
@@ -72,7 +73,8 @@ class ASCIIArmor(object):
 
     @classmethod
     def from_ascii(cls, text):
-        lines = text.splitlines()
+        # Header values may contain other characters that separate lines
+        lines = LINE_ENDING.split(text)
         line_no = 0
 
         # Skip blank lines before header line
-- 
2.43.0


From 40c0a5727cbb32521dc6d3731de471b1d3b70eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 57/74] fix: Replace keyring files as a whole

---
 pgp/db/gpg.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 107cfc8..af010e7 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -28,6 +28,7 @@ except ImportError:
         HAVE_GDBM = False
 import os
 import platform
+import shutil
 import signal
 import threading
 import time
@@ -424,6 +425,22 @@ class Keyring(BaseResource):
         finally:
             self.unlock_db()
 
+    def _write(self, data):
+        # The file is never without its keys, whatever happens meanwhile
+        filename = os.path.realpath(self.filename)
+        temp_filename = '{0}{1}tmp'.format(filename, os.path.extsep)
+        try:
+            with open(temp_filename, 'wb') as fh:
+                shutil.copymode(filename, temp_filename)
+                fh.write(data)
+                fh.flush()
+                os.fsync(fh.fileno())
+            os.replace(temp_filename, filename)
+        except Exception:
+            if os.path.exists(temp_filename):
+                os.unlink(temp_filename)
+            raise
+
     def get_transferrable_key(self, fingerprint):
         self.lock_db()
         try:
@@ -447,8 +464,7 @@ class Keyring(BaseResource):
 
             data += b''.join(map(bytes, key.to_packets(
                 self._preferred_header_format)))
-            with open(self.filename, 'wb') as fh:
-                fh.write(data)
+            self._write(data)
             self._update_offset_table()
         finally:
             self.unlock_db()
@@ -484,8 +500,7 @@ class Keyring(BaseResource):
                 fh.seek(last_offset)
                 data += fh.read()
             data += b''.join(map(bytes, key.to_packets(header_format)))
-            with open(self.filename, 'wb') as fh:
-                fh.write(data)
+            self._write(data)
             self._update_offset_table()
         finally:
             self.unlock_db()
@@ -518,8 +533,7 @@ class Keyring(BaseResource):
                     last_offset = fh.tell()
                 fh.seek(last_offset)
                 data += fh.read()
-            with open(self.filename, 'wb') as fh:
-                fh.write(data)
+            self._write(data)
             self._update_offset_table()
         finally:
             self.unlock_db()
-- 
2.43.0


From ef696667d20e24f9be618c6c5d55ad251ffedc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 58/74] fix: Read armor with non-ASCII headers from octets

---
 pgp/shortcuts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/shortcuts.py b/pgp/shortcuts.py
index 0c0088f..9221d34 100644
--- a/pgp/shortcuts.py
+++ b/pgp/shortcuts.py
@@ -17,7 +17,7 @@ def read_message(data, armored=False):
     if armor.is_armor(data):
         # Assume the user made a mistake
         if isinstance(data, bytes):
-            data = data.decode('us-ascii')
+            data = data.decode('utf8')
         armored = True
     if armored:
         fn = parse_ascii_packet_data
@@ -42,7 +42,7 @@ def read_key(data, armored=False):
     if armor.is_armor(data):
         # Assume the user made a mistake
         if isinstance(data, bytes):
-            data = data.decode('us-ascii')
+            data = data.decode('utf8')
         armored = True
     if armored:
         fn = parse_ascii_packet_data
-- 
2.43.0


From afa2dc7e8d8bf6c5a48e9271f73000d4549dcfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:35 +0000
Subject: [PATCH 59/74] fix: judge revoked and expired signatures rightly

---
 pgp/signature.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 5bed512..12174bf 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -273,6 +273,8 @@ class BaseSignature(object):
         self.get_current_time = current_time_fn
 
     def __eq__(self, other):
+        if not isinstance(other, BaseSignature):
+            return NotImplemented
         return bytes(self.to_packet()) == bytes(other.to_packet())
 
     def __hash__(self):
@@ -849,6 +851,9 @@ class BaseSignature(object):
                                                   sig.version))
                 if hash_.hexdigest().upper() == expected_digest:
                     return sig
+        if subpackets:
+            # Meant for another signature
+            return None
 
         # Fallback
         revocable = []
@@ -863,7 +868,10 @@ class BaseSignature(object):
     @property
     def expired(self):
         if self.signature_expiration_time:
-            return self.get_current_time() > self.signature_expiration_time
+            # Local times are not in the order of the times they stand for when
+            # clocks are turned back
+            return (self.get_current_time().timestamp() >
+                    self.signature_expiration_time.timestamp())
         return False
 
     @property
@@ -878,11 +886,28 @@ class BaseSignature(object):
                 ):
             if not self.parent:
                 return None
+            if self.revocable is False:
+                # "Signatures that are not revocable have any later revocation
+                #  signatures ignored."
+                return False
             for s in self.parent.signatures:
-                if s.revocation and s.target == self:
+                if (
+                        s.revocation and self._may_be_revoked_by(s)
+                        and s.target == self
+                        ):
                     return True
         return False
 
+    def _may_be_revoked_by(self, signature):
+        # By the key that made it or a revocation key authorised by that key
+        issuers = set(self.issuer_key_ids)
+        revokers = set(issuers)
+        key = getattr(self.parent, 'primary_public_key', None) or self.parent
+        if key.key_id in issuers:
+            revokers.update(info.fingerprint[-16:]
+                            for info in key.revocation_keys)
+        return bool(revokers & set(signature.issuer_key_ids))
+
     @property
     def issuer_user_name(self):
         if self.issuer_user_id is None:
-- 
2.43.0


From d7bebff3ae136db87e880eb3f972aa5f31fd8e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 60/74] fix: set list attributes of signatures with repeated
 subpackets

---
 pgp/signature.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 12174bf..035708f 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -300,14 +300,18 @@ class BaseSignature(object):
             self.unhashed_subpackets.remove(sp)
 
     def _set_subpacket_items(self, type_, items, get_item, add_item):
-        # Keep the subpackets of the items that are still wanted
+        # Keep one subpacket of each item that is still wanted
         existing = []
-        for sp in self._get_subpackets(type_):
-            item = get_item(sp)
-            if item in items:
-                existing.append(item)
-            else:
-                self._remove_subpacket(sp)
+        for area in (self.hashed_subpackets, self.unhashed_subpackets):
+            kept = []
+            for sp in area:
+                if sp.type == type_:
+                    item = get_item(sp)
+                    if item not in items or item in existing:
+                        continue
+                    existing.append(item)
+                kept.append(sp)
+            area[:] = kept
         for item in items:
             if item not in existing:
                 existing.append(item)
-- 
2.43.0


From bd3af5f493a017434dfac09135619918ac5966bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:26 +0000
Subject: [PATCH 61/74] fix: accept trust packets behind any packet of a key

---
 pgp/transferrable_keys.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 41d7912..ba50704 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -882,6 +882,10 @@ class UserAttribute(SignedMixin):
 def validate_transferrable_key(packets, secret=False):
     # http://tools.ietf.org/html/rfc4880#section-11.1
 
+    # GnuPG's key rings have trust packets behind any packet of a key. They
+    # are not part of the key.
+    packets = packets[:1] + [p for p in packets[1:]
+                             if p.type != C.TRUST_PACKET_TYPE]
     type_order = list(map(lambda p: p.type, packets))
     previous = None
     if not secret:
@@ -897,9 +901,6 @@ def validate_transferrable_key(packets, secret=False):
     for i in range(len(type_order)):
         if i > 0:
             j = i - 1
-            # Ignore trust packets
-            while type_order[j] == C.TRUST_PACKET_TYPE:
-                j -= 1
             previous = type_order[j]
         this = type_order[i]
         if this == key_packet_type:
@@ -910,9 +911,7 @@ def validate_transferrable_key(packets, secret=False):
             sig_type = packets[i].signature_type
             previous_non_sig = [
                 x for x in type_order[j::-1]
-                if x not in (
-                    C.SIGNATURE_PACKET_TYPE, C.TRUST_PACKET_TYPE
-                )][0]
+                if x != C.SIGNATURE_PACKET_TYPE][0]
             if sig_type == C.SIGNATURE_DIRECTLY_ON_A_KEY:
                 for t in type_order[:i]:
                     if t not in (key_packet_type,
@@ -999,10 +998,6 @@ def validate_transferrable_key(packets, secret=False):
 
                 raise exceptions.InvalidKeyPacketOrder(
                             "Subkeys must be followed by a binding signature")
-        elif this == C.TRUST_PACKET_TYPE:
-            if previous != C.SIGNATURE_PACKET_TYPE:
-                raise exceptions.InvalidKeyPacketOrder(
-                            "Trust packets may only follow signature packets")
         else:
             raise exceptions.InvalidKeyPacketType(this)
 
-- 
2.43.0


From 843099eb22744d49bf7741a0719c29a065ef04ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:42 +0000
Subject: [PATCH 62/74] fix: copy the content items of user attributes

---
 pgp/transferrable_keys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index ba50704..8874115 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -14,6 +14,7 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
+import copy
 import datetime
 import time
 import weakref
@@ -849,7 +850,8 @@ class UserAttribute(SignedMixin):
         return packets.UserAttributePacket(header_format, subpackets)
 
     def _copy(self, primary_public_key):
-        result = self.__class__(primary_public_key, self.content_items[:])
+        result = self.__class__(primary_public_key,
+                                [copy.copy(i) for i in self.content_items])
         result.packet_header_type = self.packet_header_type
         result.signatures = [sig.copy(result) for sig in self.signatures]
         return result
-- 
2.43.0


From 158a43ef6c0062b2b1b5988cfc0359f95794e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 63/74] fix: compute keygrips as GnuPG does

---
 pgp/transferrable_keys.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 8874115..ed903ac 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -362,22 +362,27 @@ class BasePublicKey(SignedMixin):
 
     @property
     def keygrip(self):
-        sexp = ''
+        # The same values as GnuPG and libgcrypt hash
+        def number(n):
+            # with a leading zero where it would seem negative
+            return n.to_bytes(n.bit_length() // 8 + 1, 'big') if n else b''
+
         if self.public_key_algorithm in (1, 2, 3):
-            sexp = '(public-key(rsa(n{n})(e{e})))'.format(
-                    n=self.modulus_n, e=self.exponent_e)
-        elif self.public_key_algorithm == 17:
-            sexp = '(public-key(dsa(p{p})(q{q})(g{g})(y{y})))'.format(
-                    p=self.prime_p, q=self.group_order_q,
-                    g=self.group_generator_g, y=self.key_value_y)
-        elif self.public_key_algorithm in (16, 20):
-            sexp = '(public-key(elg(p{p})(g{g})(y{y})))'.format(
-                    p=self.prime_p, g=self.group_generator_g,
-                    y=self.key_value_y)
+            data = number(self.modulus_n)
+        elif self.public_key_algorithm in (16, 17, 20):
+            values = [(b'p', self.prime_p), (b'g', self.group_generator_g),
+                      (b'y', self.key_value_y)]
+            if self.public_key_algorithm == 17:
+                values.insert(1, (b'q', self.group_order_q))
+            data = b''
+            for name, value in values:
+                value = number(value)
+                data += b'(1:' + name + str(len(value)).encode('us-ascii')
+                data += b':' + value + b')'
         else:
             raise ValueError
 
-        return SHA.new(sexp.encode('us-ascii')).hexdigest().upper()
+        return SHA.new(data).hexdigest().upper()
 
     def _get_key_obj(self):
         key_constructor = utils.get_public_key_constructor(
-- 
2.43.0


From a0e57b3cb9a5e3f1bacce7e3da55ecc135a220f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:25 +0000
Subject: [PATCH 64/74] fix: read the answers of the passphrase agent exactly

---
 pgp/pinentry/gpg_agent.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index 7ba9639..0f21d72 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -17,7 +17,7 @@
 import os
 import socket
 from urllib.parse import quote
-from urllib.parse import unquote
+from urllib.parse import unquote_to_bytes
 
 
 class GPGAgentPinentry(object):
@@ -42,28 +42,38 @@ class GPGAgentPinentry(object):
     def send(self, data):
         if isinstance(data, str):
             data = data.encode('latin-1')
-        self._sock.send(data + b'\n')
+        self._sock.sendall(data + b'\n')
 
     def get_response(self):
         buf = b''
         lines = []
         while 1:
             byte = self._sock.recv(1)
+            if not byte:
+                raise ValueError('The agent closed the connection.')
             if byte == b'\n':
                 lines.append(buf)
-                if buf[:2] == b'OK':
+                word = buf.split(b' ', 1)[0]
+                if word == b'OK':
                     break
-                elif buf[:3] == b'ERR':
+                elif word == b'ERR':
                     raise ValueError(buf[4:].decode('latin-1'))
                 buf = b''
             else:
                 buf += byte
         return lines
 
+    def _ask(self, command):
+        try:
+            self.connect()
+            self.send(command)
+            return self.get_response()
+        finally:
+            self.disconnect()
+
     def get_passphrase(self, prompt=None, error_message=None,
                        description=None, cache_id=None, use_cache=True,
                        no_ask=False, qualitybar=False, repeat=0):
-        self.connect()
         params = '--data'
         if no_ask:
             params += ' --no-ask'
@@ -73,7 +83,7 @@ class GPGAgentPinentry(object):
             params += ' --repeat'
         elif repeat > 1:
             params += ' --repeat={0}'.format(repeat)
-        if cache_id:
+        if cache_id and use_cache:
             params += ' {0}'.format(quote(cache_id))
         else:
             params += ' X'
@@ -89,12 +99,10 @@ class GPGAgentPinentry(object):
             params += ' {0}'.format(quote(description))
         else:
             params += ' X'
-        self.send('GET_PASSPHRASE {0}'.format(params))
-        response = self.get_response()
-        self.disconnect()
-        return unquote(response[0][2:].decode('latin-1'))
+        response = self._ask('GET_PASSPHRASE {0}'.format(params))
+        # The passphrase may be in several lines, between others
+        data = b''.join(line[2:] for line in response if line[:2] == b'D ')
+        return unquote_to_bytes(data).decode('utf8')
 
     def clear_passphrase(self, cache_id):
-        self.connect()
-        self.send('CLEAR_PASSPHRASE {0}'.format(quote(cache_id)))
-        self.disconnect()
+        self._ask('CLEAR_PASSPHRASE {0}'.format(quote(cache_id)))
-- 
2.43.0


From 011c0f05410123f4ac71a817cc3d74d091b00822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:14 +0000
Subject: [PATCH 65/74] fix: Share key database handles between threads

---
 pgp/db/gpg.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index af010e7..a5c630a 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -213,7 +213,12 @@ class BaseResource(object):
         """
         if len(key_id) > 16:
             return [k for k in self.keys() if k == key_id]
-        return [k for k in self.keys() if self._key_id(k).endswith(key_id)]
+        self.lock_db()
+        try:
+            return [k for k in self.keys()
+                    if self._key_id(k).endswith(key_id)]
+        finally:
+            self.unlock_db()
 
     def _find_one(self, key_id):
         for fingerprint in self.find(key_id):
@@ -355,8 +360,12 @@ class Keyring(BaseResource):
         self._update_offset_table()
 
     def keys(self):
-        self._update_offset_table()
-        return list(self._offset_table)
+        self.lock_db()
+        try:
+            self._update_offset_table()
+            return list(self._offset_table)
+        finally:
+            self.unlock_db()
 
     def _key_id(self, fingerprint):
         return self._key_ids[fingerprint]
@@ -379,12 +388,12 @@ class Keyring(BaseResource):
                         offset_table[packet.fingerprint] = last_offset
                         key_ids[packet.fingerprint] = packet.key_id
                     last_offset = fh.tell()
+            # Other threads may do the same
+            self._offset_table = offset_table
+            self._key_ids = key_ids
         finally:
             self.unlock_db()
 
-        self._offset_table = offset_table
-        self._key_ids = key_ids
-
     def _get_key(self, offset):
         self.lock_db()
         try:
-- 
2.43.0


From adff10ef30a307e433078fb2ef7eb4699fd578e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:24 +0000
Subject: [PATCH 66/74] fix: Let only one process break a stale lock

---
 pgp/db/gpg.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index a5c630a..81d1f38 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -17,6 +17,7 @@
 import atexit
 from collections import OrderedDict
 import errno
+import fcntl
 try:
     from dbm import gnu as gdbm
     HAVE_GDBM = True
@@ -139,6 +140,21 @@ class Lock(object):
             return e.errno == errno.ESRCH
         return False
 
+    def _break_stale(self):
+        # The process which held the lock is gone. Others may have noticed, too
+        # and one of them may hold the lock by now.
+        try:
+            with open(self.name, 'r') as fh:
+                fcntl.flock(fh, fcntl.LOCK_EX)
+                if (not os.path.samestat(os.fstat(fh.fileno()),
+                                         os.stat(self.name))
+                        or not self._is_stale()):
+                    return False
+                os.unlink(self.name)
+        except OSError:
+            return False
+        return True
+
     def acquire(self, timeout=None):
         start = time.time()
         self._lock.acquire()
@@ -152,12 +168,7 @@ class Lock(object):
             else:
                 self.locked = True
                 break
-            if self._is_stale():
-                # The process which held the lock is gone
-                try:
-                    os.unlink(self.name)
-                except OSError:
-                    pass
+            if self._is_stale() and self._break_stale():
                 continue
             if timeout is not None and (time.time() - start) > timeout:
                 self._lock.release()
-- 
2.43.0


From ccbec1e20f67d01cc8222b9724abede932ef3bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:29 +0000
Subject: [PATCH 67/74] fix: Compare all of unknown and one-pass signature
 packets

---
 pgp/packets/packets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index a1794c8..a24497d 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -107,6 +107,9 @@ class Packet(object):
             self.__class__ == other.__class__
             and self.header_format == other.header_format
             and self.type == other.type
+            # There are no other values in a packet of an unknown type
+            and (self.__class__ is not Packet
+                 or self.content == other.content)
             )
 
     def __repr__(self):
@@ -682,6 +685,7 @@ class OnePassSignaturePacket(Packet):
     def __eq__(self, other):
         return (
             super(OnePassSignaturePacket, self).__eq__(other)
+            and self.version == other.version
             and self.signature_type == other.signature_type
             and self.hash_algorithm == other.hash_algorithm
             and self.public_key_algorithm == other.public_key_algorithm
-- 
2.43.0


From 14f53f095e7c5cbb898f53218bf4b1aaad12c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:24 +0000
Subject: [PATCH 68/74] fix: expiry of version 3 keys across clock changes

---
 pgp/transferrable_keys.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index ed903ac..6025cad 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -207,8 +207,9 @@ class BasePublicKey(SignedMixin):
         if version >= 4 or expiration_days in (None, 0):
             expiration_time = None
         else:
-            expiration_time = \
-                creation_time + datetime.timedelta(days=expiration_days)
+            # Days do not have 24 hours where clocks are changed
+            expiration_time = datetime.datetime.fromtimestamp(
+                packet.creation_time + expiration_days * 86400)
         modulus_n = packet.modulus
         exponent_e = packet.exponent
         prime_p = packet.prime
@@ -235,7 +236,10 @@ class BasePublicKey(SignedMixin):
             expiration_days = 0
             expiration_time = self.expiration_time
             if expiration_time is not None:
-                expiration_days = (expiration_time - self.creation_time).days
+                # (one hour of tolerance, for changed clocks)
+                expiration_days = int(
+                    expiration_time.timestamp() - creation_time + 3600
+                    ) // 86400
 
         return (
             header_format, self.version, creation_time,
-- 
2.43.0


From fea50506bbfabc8b8efce222c0676381f6747342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:27 +0000
Subject: [PATCH 69/74] fix: revocations that count against a signature

---
 pgp/signature_verification.py | 40 +++++++++++++++++------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index 51764bf..1dbe35a 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -133,32 +133,32 @@ def check_signature_values(key, signature, current_time=None, strict=False):
         #  he cannot revoke his signature for the life of his key. If this
         #  packet is not present, the signature is revocable."
         revocation_key_parent = key.primary_public_key or key
-        revocation_keys = []
+        revocation_key_ids = [revocation_key_parent.key_id]
         for sig in key.signatures:
             # first look for separate revocation keys
-            if sig.signature_type in (constants.SUBKEY_BINDING_SIGNATURE,
-                                      constants.SIGNATURE_DIRECTLY_ON_A_KEY):
-                revocation_keys.extend([
-                    rev_key.fingerprint[-8:]
+            if (
+                    sig.signature_type in (
+                        constants.SUBKEY_BINDING_SIGNATURE,
+                        constants.SIGNATURE_DIRECTLY_ON_A_KEY)
+                    and revocation_key_parent.key_id in sig.issuer_key_ids
+                    ):
+                revocation_key_ids.extend([
+                    rev_key.fingerprint[-16:]
                     for rev_key
                     in sig.revocation_keys
                     ])
         for sig in key.signatures:
-            if sig.signature_type in (constants.SUBKEY_REVOCATION_SIGNATURE,
-                                      constants.KEY_REVOCATION_SIGNATURE):
-                revocation_time = sig.creation_time
-                if revocation_time < key.creation_time and strict:
-                    raise SignedByRevokedKey(key.key_id)
-                if revocation_key_parent.key_id in sig.issuer_key_ids:
-                    if strict:
-                        raise SigningKeyHasBeenRevoked(key.key_id)
-                    key_revoked = True
-                elif (revocation_keys and
-                      key.key_id[-8:] in revocation_keys):
-
-                    if strict:
-                        raise SigningKeyHasBeenRevoked(key.key_id)
-                    key_revoked = True
+            if (
+                    sig.signature_type in (
+                        constants.SUBKEY_REVOCATION_SIGNATURE,
+                        constants.KEY_REVOCATION_SIGNATURE)
+                    and set(sig.issuer_key_ids) & set(revocation_key_ids)
+                    ):
+                if strict:
+                    if sig.creation_time < sig_creation_time:
+                        raise SignedByRevokedKey(key.key_id)
+                    raise SigningKeyHasBeenRevoked(key.key_id)
+                key_revoked = True
 
     return key_expired, key_revoked
 
-- 
2.43.0


From b5951b1afc6b309e6438028a35e8322349a7a0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:43 +0000
Subject: [PATCH 70/74] fix: padding of armored data on a line of its own

---
 pgp/armor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/armor.py b/pgp/armor.py
index 86b2eab..cb81551 100644
--- a/pgp/armor.py
+++ b/pgp/armor.py
@@ -141,7 +141,8 @@ class ASCIIArmor(object):
 
         data_lines = []
 
-        while lines[line_no][:1] != '=':
+        # The padding of the data may be on a line of its own
+        while lines[line_no][:1] != '=' or not lines[line_no].strip(' \t='):
             data_lines.append(lines[line_no])
             line_no += 1
 
-- 
2.43.0


From 5d6f302095e30e99e6789e5264bf194be5bdd9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:44 +0000
Subject: [PATCH 71/74] fix: properties a key does not have share no list

---
 pgp/transferrable_keys.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 6025cad..21f4d3a 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -123,10 +123,11 @@ class SignedMixin(object):
     @staticmethod
     def __selfsig_attribute(name, default=None, revocation=False):
         def getter(self):
-            result = default
+            # A list is the caller's
+            result = copy.copy(default)
             if self.version >= 4:
                 most_recent_selfsig = self.get_most_recent_selfsig(revocation)
-                result = getattr(most_recent_selfsig, name, default)
+                result = getattr(most_recent_selfsig, name, result)
 
             return result
 
-- 
2.43.0


From 14cc41d69fe5ebec82045401d8e9f9113bafe73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:04 +0000
Subject: [PATCH 72/74] fix: public form of a secret subkey has its own
 signatures

---
 pgp/transferrable_keys.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 21f4d3a..52ffb98 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -494,7 +494,8 @@ class BaseSecretKey(BasePublicKey):
             self.version, self.public_key_algorithm, self.creation_time,
             self.expiration_time, self.modulus_n, self.exponent_e,
             self._public_prime_p, self.group_generator_g, self.group_order_q,
-            self.key_value_y, self.signatures)
+            self.key_value_y)
+        key.signatures = [sig.copy(key) for sig in self.signatures]
         key.packet_header_type = self.packet_header_type
         return key
 
@@ -688,7 +689,8 @@ class SecretSubkey(PublicSubkey, BaseSecretKey):
             self.primary_public_key, self.version, self.public_key_algorithm,
             self.creation_time, self.expiration_time, self.modulus_n,
             self.exponent_e, self._public_prime_p, self.group_generator_g,
-            self.group_order_q, self.key_value_y, self.signatures)
+            self.group_order_q, self.key_value_y)
+        key.signatures = [sig.copy(key) for sig in self.signatures]
         key.packet_header_type = self.packet_header_type
         return key
 
@@ -1151,7 +1153,6 @@ class TransferableSecretKey(BaseSecretKey, TransferablePublicKey):
         # Everything attached to the public key refers to it and not to the
         # secret key.
         key = super(TransferableSecretKey, self).to_public_key()
-        key.signatures = [sig.copy(key) for sig in self.signatures]
         key.user_ids = [u._copy(key) for u in self.user_ids]
         key.user_attributes = [u._copy(key) for u in self.user_attributes]
         key._identity_types = self._identity_types[:]
@@ -1159,8 +1160,6 @@ class TransferableSecretKey(BaseSecretKey, TransferablePublicKey):
         for secret_subkey in self.subkeys:
             subkey = secret_subkey.to_public_key()
             subkey._primary_public_key_ref = weakref.ref(key)
-            subkey.signatures = [sig.copy(subkey)
-                                 for sig in secret_subkey.signatures]
             key.subkeys.append(subkey)
         return key
 
-- 
2.43.0


From f44847f15ac4656c77a1e7578248144c0df860e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:57 +0000
Subject: [PATCH 73/74] fix: packets do not change with the signatures read
 from or written to them

---
 pgp/signature.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 035708f..398d1ec 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -160,8 +160,9 @@ class BaseSignature(object):
         elif version >= 4:
             creation_time = None
             issuer_key_id = None
-            hashed_subpackets = packet.hashed_subpackets[:]
-            unhashed_subpackets = packet.unhashed_subpackets[:]
+            # (the packet does not change with the signature)
+            hashed_subpackets = copy.deepcopy(packet.hashed_subpackets)
+            unhashed_subpackets = copy.deepcopy(packet.unhashed_subpackets)
         else:
             raise ValueError
 
@@ -178,8 +179,8 @@ class BaseSignature(object):
             header_format = self.packet_header_type
         if self.version >= 4:
             # Use subpackets
-            hashed_subpackets = self.hashed_subpackets
-            unhashed_subpackets = self.unhashed_subpackets
+            hashed_subpackets = copy.deepcopy(self.hashed_subpackets)
+            unhashed_subpackets = copy.deepcopy(self.unhashed_subpackets)
             # Set target hash etc
             packet = packets.SignaturePacket(
                         header_format, self.version, self.signature_type,
-- 
2.43.0


From d26d8d22925c97efffec49970cb055a487095332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:15 +0000
Subject: [PATCH 74/74] fix: images of user attributes are not shared

---
 pgp/transferrable_keys.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 52ffb98..4890ead 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -797,7 +797,8 @@ class UserAttributeContentItem(object):
                                           mime=True)
             if isinstance(mime_type, bytes):
                 mime_type = mime_type.decode('ascii')
-        result = cls(mime_type, subpacket.data)
+        # (the packet does not change with the item)
+        result = cls(mime_type, subpacket.data[:])
         result._subpacket = subpacket
         return result
 
@@ -863,7 +864,7 @@ class UserAttribute(SignedMixin):
 
     def _copy(self, primary_public_key):
         result = self.__class__(primary_public_key,
-                                [copy.copy(i) for i in self.content_items])
+                                copy.deepcopy(self.content_items))
         result.packet_header_type = self.packet_header_type
         result.signatures = [sig.copy(result) for sig in self.signatures]
         return result
-- 
2.43.0

