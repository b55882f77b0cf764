From 84bea0bfd62500d1f3edf4294ac0dafb6dd5ac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:43 +0000
Subject: [PATCH 01/49] fix: round timestamps to the nearest millisecond
 instead of truncating

---
 ccnpy/core/Timestamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index d6c2f12..1878b6b 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -75,7 +75,7 @@ class Timestamp(TlvType, ABC):
         Python timestamp in milliseconds as integer
         :return:
         """
-        msec = int(self.timestamp() * 1000)
+        msec = round(self.timestamp() * 1000)
         return msec
 
     def datetime(self):
-- 
2.43.0


From 7f79a4fcc8a50476947fa87f54801386df44a71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:15 +0000
Subject: [PATCH 02/49] fix: compare TLVs by their whole wire encoding

---
 ccnpy/core/Tlv.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index 918c9ee..fff8b2d 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -94,12 +94,9 @@ class Tlv(Serializable):
         return output
 
     def __eq__(self, other):
-        result = False
-        if len(self) == len(other):
-            if self.value() == other.value():
-                result = True
-
-        return result
+        if not isinstance(other, Tlv):
+            return False
+        return self._wire_format == other._wire_format
 
     def __hash__(self):
         return hash(self._wire_format.tobytes())
-- 
2.43.0


From 2ac8879a73dfb1d73870afab562c42ca6ffb705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:36 +0000
Subject: [PATCH 03/49] fix: iterating a Tlv, HashValue, Link, Timestamp or
 Pointers keeps no state in the object

---
 ccnpy/core/HashValue.py     | 11 +----------
 ccnpy/core/Link.py          | 13 +------------
 ccnpy/core/Timestamp.py     | 11 +----------
 ccnpy/core/Tlv.py           | 11 +----------
 ccnpy/flic/tlvs/Pointers.py | 11 +----------
 5 files changed, 5 insertions(+), 52 deletions(-)

diff --git a/ccnpy/core/HashValue.py b/ccnpy/core/HashValue.py
index 26de464..7840b0d 100755
--- a/ccnpy/core/HashValue.py
+++ b/ccnpy/core/HashValue.py
@@ -54,16 +54,7 @@ class HashValue(TlvType):
         self._wire_format = self._tlv.serialize()
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def __alg_string(self):
         if self._hash_algorithm == HashFunctionType.T_SHA_256:
diff --git a/ccnpy/core/Link.py b/ccnpy/core/Link.py
index 7a34c96..d74ceee 100755
--- a/ccnpy/core/Link.py
+++ b/ccnpy/core/Link.py
@@ -55,8 +55,6 @@ class Link:
         self._name = name
         self._keyid = keyid
         self._digest = digest
-        # for iteration
-        self._offset = 0
 
         self._wire_format = array.array("B", [])
         if self._name is not None:
@@ -78,16 +76,7 @@ class Link:
         return len(self._wire_format)
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def name(self) -> Optional[Name]:
         return self._name
diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index 1878b6b..e0e9ab7 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -49,16 +49,7 @@ class Timestamp(TlvType, ABC):
         return len(self._tlv)
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def serialize(self):
         return self._tlv.serialize()
diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index fff8b2d..b3d344a 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -82,16 +82,7 @@ class Tlv(Serializable):
         return 4 + self.length()
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def __eq__(self, other):
         if not isinstance(other, Tlv):
diff --git a/ccnpy/flic/tlvs/Pointers.py b/ccnpy/flic/tlvs/Pointers.py
index 5648b84..d88d9c4 100755
--- a/ccnpy/flic/tlvs/Pointers.py
+++ b/ccnpy/flic/tlvs/Pointers.py
@@ -60,16 +60,7 @@ class Pointers(TlvType):
         return self._hash_values[item]
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self):
-            raise StopIteration
-
-        output = self[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._hash_values)
 
     @classmethod
     def parse(cls, tlv):
-- 
2.43.0


From 720677234466b3c7f1321cb061bab8297d832b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:41 +0000
Subject: [PATCH 04/49] fix: PacketDirectoryReader lookup by name used an
 undefined variable

---
 ccnpy/flic/tree/TreeIO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 95b86dd..a2c3898 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -268,9 +268,9 @@ class TreeIO:
                 link = Link.deserialize(p.body().payload().value())
                 hash_path = self.to_path(link.digest())
                 packet = Packet.load(hash_path)
-                print(f"Dereferenced link {filename} to load packet {packet.content_object_hash()}")
+                print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
-            raise FileNotFoundError(f'Could not find link {filename}')
+            raise FileNotFoundError(f'Could not find link {link_path}')
 
         def close(self):
             pass
-- 
2.43.0


From 6985dd7b500821e7e31dcd83c38ea8fdcbcfc139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:10 +0000
Subject: [PATCH 05/49] fix: reject a fetched packet whose content object hash
 is not the requested hash

---
 ccnpy/flic/tree/Traversal.py |  7 ++++++-
 ccnpy/flic/tree/TreeIO.py    | 12 ++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/ccnpy/flic/tree/Traversal.py b/ccnpy/flic/tree/Traversal.py
index ba8842c..883468e 100755
--- a/ccnpy/flic/tree/Traversal.py
+++ b/ccnpy/flic/tree/Traversal.py
@@ -85,6 +85,8 @@ class Traversal:
         """
         nc_cache = Traversal.NameConstructorCache()
         root_packet = self._packet_input.get(name=root_name, hash_restriction=hash_restriction)
+        if hash_restriction is not None and root_packet.content_object_hash() != hash_restriction:
+            raise ValueError(f'Requested root packet {hash_restriction} but got packet with hash {root_packet.content_object_hash()}')
         self.logger.debug('Traversal root packet: %s', root_packet)
 
         self._validator.validate_packet(packet=root_packet)
@@ -212,4 +214,7 @@ class Traversal:
         schema_impl = nc_cache.cache[nc_id]
         interest_name = schema_impl.get_name(segment_id)
         self.logger.debug('fetch_packet: %s, %s', interest_name, hash_value)
-        return self._packet_input.get(name=interest_name, hash_restriction=hash_value)
+        packet = self._packet_input.get(name=interest_name, hash_restriction=hash_value)
+        if packet is not None and packet.content_object_hash() != hash_value:
+            raise ValueError(f'Requested packet {hash_value} but got packet with hash {packet.content_object_hash()}')
+        return packet
diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index a2c3898..c3f61af 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -239,13 +239,18 @@ class TreeIO:
                 return self._get_by_name(name)
 
             # ccnx does not use forwarding hint
-            path = self.to_path(hash_restriction)
-            p = Packet.load(path)
+            p = self._load_by_hash(hash_restriction)
             if p.body().name() is not None:
                 if name != p.body().name():
                     raise ValueError(f'Found packet hash {hash_restriction}, but request name {name} does not match packet {p.body().name()}')
             return p
 
+        def _load_by_hash(self, hash_value: HashValue) -> Packet:
+            packet = Packet.load(self.to_path(hash_value))
+            if packet.content_object_hash() != hash_value:
+                raise ValueError(f'Packet stored as {hash_value} has hash {packet.content_object_hash()}')
+            return packet
+
         def _get_by_name(self, name: Name) -> Packet:
             """
             Try fetching a link with that name, otherwise search the directory
@@ -266,8 +271,7 @@ class TreeIO:
             # TODO: we should validate p, but that needs a keystore
             if p.body().is_link():
                 link = Link.deserialize(p.body().payload().value())
-                hash_path = self.to_path(link.digest())
-                packet = Packet.load(hash_path)
+                packet = self._load_by_hash(link.digest())
                 print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
             raise FileNotFoundError(f'Could not find link {link_path}')
-- 
2.43.0


From b2507a786d3cf45d7001bdeff554ff43fafb7b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 06/49] fix: comparing with an object of another type is False
 instead of an error or a match

---
 ccnpy/core/ContentObject.py            | 2 +-
 ccnpy/core/FixedHeader.py              | 4 +---
 ccnpy/core/KeyLink.py                  | 2 +-
 ccnpy/core/Link.py                     | 2 +-
 ccnpy/core/Name.py                     | 2 +-
 ccnpy/core/Packet.py                   | 2 +-
 ccnpy/core/PayloadType.py              | 2 +-
 ccnpy/core/Timestamp.py                | 2 +-
 ccnpy/core/TlvType.py                  | 8 ++------
 ccnpy/core/ValidationAlg.py            | 2 +-
 ccnpy/core/ValidationPayload.py        | 2 +-
 ccnpy/flic/tlvs/GroupData.py           | 2 +-
 ccnpy/flic/tlvs/Locator.py             | 2 +-
 ccnpy/flic/tlvs/Locators.py            | 4 +---
 ccnpy/flic/tlvs/NcSchema.py            | 2 +-
 ccnpy/flic/tlvs/Node.py                | 4 +---
 ccnpy/flic/tlvs/NodeData.py            | 2 +-
 ccnpy/flic/tlvs/Pointers.py            | 2 +-
 ccnpy/flic/tlvs/SuffixComponentType.py | 2 +-
 ccnpy/flic/tlvs/Vendor.py              | 4 +---
 20 files changed, 21 insertions(+), 33 deletions(-)

diff --git a/ccnpy/core/ContentObject.py b/ccnpy/core/ContentObject.py
index ac03b4a..b7d272a 100755
--- a/ccnpy/core/ContentObject.py
+++ b/ccnpy/core/ContentObject.py
@@ -164,7 +164,7 @@ class ContentObject(TlvType):
         return "CO: {%r, %r, %r, %r, %r}" % (self.name(), self.expiry_time(), self.payload_type(), payload, self._final_chunk_id)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return type(self) is type(other) and self.__dict__ == other.__dict__
 
     def __len__(self):
         """
diff --git a/ccnpy/core/FixedHeader.py b/ccnpy/core/FixedHeader.py
index 2e4e81e..484b8ae 100755
--- a/ccnpy/core/FixedHeader.py
+++ b/ccnpy/core/FixedHeader.py
@@ -51,9 +51,7 @@ class FixedHeader:
                 DisplayFormatter.hexlify(self._fields), self._header_length)
 
     def __eq__(self, other):
-        if self.__dict__ == other.__dict__:
-            return True
-        return False
+        return type(self) is type(other) and self.__dict__ == other.__dict__
 
     def version(self):
         return self._ver
diff --git a/ccnpy/core/KeyLink.py b/ccnpy/core/KeyLink.py
index 38a439d..57a21c3 100755
--- a/ccnpy/core/KeyLink.py
+++ b/ccnpy/core/KeyLink.py
@@ -31,7 +31,7 @@ class KeyLink(TlvType):
         self._tlv = Tlv(self.class_type(), link)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return type(self) is type(other) and self.__dict__ == other.__dict__
 
     def __repr__(self):
         return "KeyLink: {link: %r}" % self._link
diff --git a/ccnpy/core/Link.py b/ccnpy/core/Link.py
index d74ceee..3ce5d75 100755
--- a/ccnpy/core/Link.py
+++ b/ccnpy/core/Link.py
@@ -67,7 +67,7 @@ class Link:
             self._wire_format.extend(Tlv(self.__T_OBJHASHRESTR, self._digest).serialize())
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return type(self) is type(other) and self.__dict__ == other.__dict__
 
     def __repr__(self):
         return "Link(%r, %r, %r)" % (self._name, self._keyid, self._digest)
diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index ee1fb81..55dfb97 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -95,7 +95,7 @@ class Name(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return type(self) is type(other) and self.__dict__ == other.__dict__
 
     def __str__(self):
         return "NAME: %r" % [f'{c.type()} = {c.value()}' for c in self._components]
diff --git a/ccnpy/core/Packet.py b/ccnpy/core/Packet.py
index 068c91f..4da8e3b 100755
--- a/ccnpy/core/Packet.py
+++ b/ccnpy/core/Packet.py
@@ -90,7 +90,7 @@ class Packet:
         return array.array("B", byte_list)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return type(self) is type(other) and self.__dict__ == other.__dict__
 
     def __repr__(self):
         return "{Packet: {%r, %r, %r, %r}}" % (self._header, self._body, self._validation_alg, self._validation_payload)
diff --git a/ccnpy/core/PayloadType.py b/ccnpy/core/PayloadType.py
index c984e5b..d23d22e 100755
--- a/ccnpy/core/PayloadType.py
+++ b/ccnpy/core/PayloadType.py
@@ -50,7 +50,7 @@ class PayloadType(TlvType):
         return "PLDTYP: %r" % self.__to_string()
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return type(self) is type(other) and self.__dict__ == other.__dict__
 
     @classmethod
     def parse(cls, tlv):
diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index e0e9ab7..6845331 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -40,7 +40,7 @@ class Timestamp(TlvType, ABC):
         self._wire_format = self._tlv.serialize()
 
     def __eq__(self, other):
-        return self.timestamp() == other.timestamp()
+        return type(self) is type(other) and self.timestamp() == other.timestamp()
 
     def __repr__(self):
         return "%r: %r" % (self.__class__.__name__, self.datetime().isoformat())
diff --git a/ccnpy/core/TlvType.py b/ccnpy/core/TlvType.py
index dd1fe93..844f927 100755
--- a/ccnpy/core/TlvType.py
+++ b/ccnpy/core/TlvType.py
@@ -130,9 +130,7 @@ class IntegerTlvType(TlvType, ABC):
         return len(self._tlv)
 
     def __eq__(self, other):
-        if not isinstance(other, IntegerTlvType):
-            return False
-        return self._value == other._value
+        return type(self) is type(other) and self._value == other._value
 
     def __hash__(self):
         return hash(self._tlv)
@@ -183,9 +181,7 @@ class OctetTlvType(TlvType, ABC):
         return len(self._tlv)
 
     def __eq__(self, other):
-        if not isinstance(other, OctetTlvType):
-            return False
-        return self._value == other._value
+        return type(self) is type(other) and self._tlv == other._tlv
 
     def __repr__(self):
         return DisplayFormatter.hexlify(self._value)
diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index b3468ef..d4715ef 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -76,7 +76,7 @@ class ValidationAlg_Crc32c(ValidationAlg):
                               Tlv(self.class_type(), []))
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return type(self) is type(other) and self.__dict__ == other.__dict__
 
     def __len__(self):
         return len(self._tlv)
diff --git a/ccnpy/core/ValidationPayload.py b/ccnpy/core/ValidationPayload.py
index 42e3fec..e3190ad 100755
--- a/ccnpy/core/ValidationPayload.py
+++ b/ccnpy/core/ValidationPayload.py
@@ -31,7 +31,7 @@ class ValidationPayload(TlvType):
         self._tlv = Tlv(self.class_type(), self._payload)
 
     def __eq__(self, other):
-        return self.payload() == other.payload()
+        return type(self) is type(other) and self._tlv == other._tlv
 
     def __repr__(self):
         return "ValPld: %r" % DisplayFormatter.hexlify(self._payload)
diff --git a/ccnpy/flic/tlvs/GroupData.py b/ccnpy/flic/tlvs/GroupData.py
index 8a18be9..56cc151 100755
--- a/ccnpy/flic/tlvs/GroupData.py
+++ b/ccnpy/flic/tlvs/GroupData.py
@@ -76,7 +76,7 @@ class GroupData(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return type(self) is type(other) and self.__dict__ == other.__dict__
 
     def __repr__(self):
         return ("GroupData: {%r, %r, %r, %r, %r, %r}" %
diff --git a/ccnpy/flic/tlvs/Locator.py b/ccnpy/flic/tlvs/Locator.py
index d8bf315..82b714d 100755
--- a/ccnpy/flic/tlvs/Locator.py
+++ b/ccnpy/flic/tlvs/Locator.py
@@ -64,7 +64,7 @@ class Locator(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return type(self) is type(other) and self.__dict__ == other.__dict__
 
     def __repr__(self):
         return "Locator: %r" % self._link
diff --git a/ccnpy/flic/tlvs/Locators.py b/ccnpy/flic/tlvs/Locators.py
index 3316d38..ef62a55 100755
--- a/ccnpy/flic/tlvs/Locators.py
+++ b/ccnpy/flic/tlvs/Locators.py
@@ -69,9 +69,7 @@ class Locators(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        if self.__dict__ == other.__dict__:
-            return True
-        return False
+        return type(self) is type(other) and self.__dict__ == other.__dict__
 
     def __repr__(self):
         return f"Locators: {self._locators}"
diff --git a/ccnpy/flic/tlvs/NcSchema.py b/ccnpy/flic/tlvs/NcSchema.py
index 0ef9bb4..54cd991 100644
--- a/ccnpy/flic/tlvs/NcSchema.py
+++ b/ccnpy/flic/tlvs/NcSchema.py
@@ -32,7 +32,7 @@ class NcSchema(TlvType, ABC):
     Generic supertype of the name constructor schemas
     """
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return type(self) is type(other) and self.__dict__ == other.__dict__
 
     @classmethod
     def parse(cls, tlv):
diff --git a/ccnpy/flic/tlvs/Node.py b/ccnpy/flic/tlvs/Node.py
index 800101d..feb0cf1 100755
--- a/ccnpy/flic/tlvs/Node.py
+++ b/ccnpy/flic/tlvs/Node.py
@@ -113,9 +113,7 @@ class Node(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        if self.__dict__ == other.__dict__:
-            return True
-        return False
+        return type(self) is type(other) and self.__dict__ == other.__dict__
 
     def __repr__(self):
         hash_values_len = len(self.hash_values())
diff --git a/ccnpy/flic/tlvs/NodeData.py b/ccnpy/flic/tlvs/NodeData.py
index c28e789..c120b08 100755
--- a/ccnpy/flic/tlvs/NodeData.py
+++ b/ccnpy/flic/tlvs/NodeData.py
@@ -95,7 +95,7 @@ class NodeData(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return type(self) is type(other) and self.__dict__ == other.__dict__
 
     def __repr__(self):
         return "NodeData: {%r, %r, %r, %r, %r}" % (self._subtree_size, self._subtree_digest, self._locators, self._nc_defs, self._vendors)
diff --git a/ccnpy/flic/tlvs/Pointers.py b/ccnpy/flic/tlvs/Pointers.py
index d88d9c4..c5a4dca 100755
--- a/ccnpy/flic/tlvs/Pointers.py
+++ b/ccnpy/flic/tlvs/Pointers.py
@@ -51,7 +51,7 @@ class Pointers(TlvType):
         return len(self._hash_values)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return type(self) is type(other) and self.__dict__ == other.__dict__
 
     def __repr__(self):
         return "Ptrs: %r" % self._hash_values
diff --git a/ccnpy/flic/tlvs/SuffixComponentType.py b/ccnpy/flic/tlvs/SuffixComponentType.py
index 0ebbec4..082b7af 100755
--- a/ccnpy/flic/tlvs/SuffixComponentType.py
+++ b/ccnpy/flic/tlvs/SuffixComponentType.py
@@ -43,7 +43,7 @@ class SuffixComponentType(TlvType):
         return "LeafSize: %02X" % self._value
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return type(self) is type(other) and self.__dict__ == other.__dict__
 
     def value(self):
         return self._value
diff --git a/ccnpy/flic/tlvs/Vendor.py b/ccnpy/flic/tlvs/Vendor.py
index 49a312c..1dc7f82 100644
--- a/ccnpy/flic/tlvs/Vendor.py
+++ b/ccnpy/flic/tlvs/Vendor.py
@@ -46,9 +46,7 @@ class Vendor(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        if self.__dict__ == other.__dict__:
-            return True
-        return False
+        return type(self) is type(other) and self.__dict__ == other.__dict__
 
     def __repr__(self):
         return "Vendor: pen: %r, payload: %r" % (self._pen, DisplayFormatter.hexlify(self._payload))
-- 
2.43.0


From 34fc146567e6e92f6aa364970e587cebb916d427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 07/49] fix: encrypt and decrypt with the KDF derived key when
 the manifest names a KDF

---
 ccnpy/crypto/HpkeKdfIdentifiers.py   |  9 ++++++-
 ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py |  9 ++++---
 ccnpy/flic/aeadctx/AeadImpl.py       | 37 +++++++++++++++++-----------
 3 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/ccnpy/crypto/HpkeKdfIdentifiers.py b/ccnpy/crypto/HpkeKdfIdentifiers.py
index 319fe9c..307828c 100644
--- a/ccnpy/crypto/HpkeKdfIdentifiers.py
+++ b/ccnpy/crypto/HpkeKdfIdentifiers.py
@@ -35,4 +35,11 @@ class HpkeKdfIdentifiers(Enum):
         for x in HpkeKdfIdentifiers:
             if x.str_name == name.upper():
                 return x
-        return KeyError(f'Not found: {name}')
+        raise KeyError(f'Not found: {name}')
+
+    @classmethod
+    def from_number(cls, number: int):
+        for x in HpkeKdfIdentifiers:
+            if x.number == number:
+                return x
+        raise KeyError(f'Not found: {number}')
diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py b/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
index 5a4b91e..2050768 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
@@ -178,10 +178,11 @@ class RsaOaepImpl(AeadImpl):
             if not (mode.is_aes_ccm_128() or mode.is_aes_ccm_256()):
                 raise DecryptionError(f'The AES key is for CCM but the manifest is not encrypted with CCM (security ctx type {security_ctx.class_type()})')
 
-        plaintext = self._params.key.decrypt(iv=self._iv_from_nonce(security_ctx.aead_data().nonce().value()),
-                                      ciphertext=encrypted_node.value(),
-                                      associated_data=security_ctx.serialize(),
-                                      auth_tag=auth_tag.value())
+        key = self._derive_key(security_ctx.aead_data().kdf_data())
+        plaintext = key.decrypt(iv=self._iv_from_nonce(security_ctx.aead_data().nonce().value()),
+                                ciphertext=encrypted_node.value(),
+                                associated_data=security_ctx.serialize(),
+                                auth_tag=auth_tag.value())
 
         node_tlv = Node.create_tlv(plaintext)
         node = Node.parse(node_tlv)
diff --git a/ccnpy/flic/aeadctx/AeadImpl.py b/ccnpy/flic/aeadctx/AeadImpl.py
index a359fa5..d01e999 100755
--- a/ccnpy/flic/aeadctx/AeadImpl.py
+++ b/ccnpy/flic/aeadctx/AeadImpl.py
@@ -14,6 +14,7 @@
 import logging
 import math
 from array import array
+from typing import Optional
 
 from .AeadData import AeadData
 from .AeadParameters import AeadParameters
@@ -21,11 +22,13 @@ from ..tlvs.AeadCtx import AeadCtx
 from ..tlvs.AeadMode import AeadMode
 from ..tlvs.AuthTag import AuthTag
 from ..tlvs.EncryptedNode import EncryptedNode
+from ..tlvs.KdfData import KdfData
 from ..tlvs.Manifest import Manifest
 from ..tlvs.Node import Node
 from ..tlvs.SecurityCtx import AeadSecurityCtx
 from ...crypto.AeadKey import AeadKey, AeadGcm, AeadCcm
 from ...crypto.DecryptionError import DecryptionError
+from ...crypto.HpkeKdfIdentifiers import HpkeKdfIdentifiers
 from ...crypto.KDF import KDF
 
 
@@ -46,21 +49,25 @@ class AeadImpl:
         self._params = params
         self.logger.debug(self)
 
-    def  _derive_key(self, key: AeadKey) -> AeadKey:
-        if self._params.kdf_data is None:
+    def _derive_key(self, kdf_data: Optional[KdfData]) -> AeadKey:
+        """
+        :param kdf_data: The KdfData of the security context of the manifest to encrypt or decrypt.
+        """
+        key = self._params.key
+        if kdf_data is None:
             return key
-        assert self._params.kdf_data.kdf_info() is not None
 
         mode = AeadMode.from_key(key)
         fixed_info = (b'FLIC'
                       + self._params.key_number.serialize().tobytes()
-                      + mode.serialize().tobytes()
-                      + self._params.kdf_data.kdf_info().serialize().tobytes())
-        derived_bytes = KDF.derive(kdf_id=self._params.kdf_data.kdf_alg().value(),
+                      + mode.serialize().tobytes())
+        if kdf_data.kdf_info() is not None:
+            fixed_info += kdf_data.kdf_info().serialize().tobytes()
+        derived_bytes = KDF.derive(kdf_id=HpkeKdfIdentifiers.from_number(kdf_data.kdf_alg().value()),
                                      input_key=key.key(),
                                      length=math.ceil(len(key) / 8),
                                      info=fixed_info,
-                                     salt=self._params.kdf_salt
+                                     salt=self._params.kdf_salt_bytes
                                      )
         if isinstance(key, AeadGcm):
             return AeadGcm(derived_bytes)
@@ -141,9 +148,10 @@ class AeadImpl:
         iv = self._iv_from_nonce(security_ctx.nonce().value())
 
         plaintext = node.serialized_value()
-        ciphertext, a = self._params.key.encrypt(iv=iv,
-                                          plaintext=plaintext,
-                                          associated_data=security_ctx.serialize())
+        key = self._derive_key(security_ctx.aead_data().kdf_data())
+        ciphertext, a = key.encrypt(iv=iv,
+                                    plaintext=plaintext,
+                                    associated_data=security_ctx.serialize())
 
         encrypted_node = EncryptedNode(ciphertext)
         auth_tag = AuthTag(a)
@@ -194,10 +202,11 @@ class AeadImpl:
             if not (security_ctx.aead_data().mode().is_aes_ccm_128() or security_ctx.aead_data().mode().is_aes_ccm_256()):
                 raise DecryptionError(f'The AES key is for CCM but the manifest is not encrypted with CCM (security ctx type {security_ctx.class_type()})')
 
-        plaintext = self._params.key.decrypt(iv=self._iv_from_nonce(security_ctx.nonce().value()),
-                                      ciphertext=encrypted_node.value(),
-                                      associated_data=security_ctx.serialize(),
-                                      auth_tag=auth_tag.value())
+        key = self._derive_key(security_ctx.aead_data().kdf_data())
+        plaintext = key.decrypt(iv=self._iv_from_nonce(security_ctx.nonce().value()),
+                                ciphertext=encrypted_node.value(),
+                                associated_data=security_ctx.serialize(),
+                                auth_tag=auth_tag.value())
 
         node_tlv = Node.create_tlv(plaintext)
         node = Node.parse(node_tlv)
-- 
2.43.0


From c9b2f39a5da7d80adf325564e5fed60818b3e4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 08/49] fix: bind the whole KdfData, which may have no KdfInfo,
 to an RSA-OAEP wrapped key

---
 ccnpy/flic/RsaOaepCtx/WrappedKey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/RsaOaepCtx/WrappedKey.py b/ccnpy/flic/RsaOaepCtx/WrappedKey.py
index c02b684..87379b3 100644
--- a/ccnpy/flic/RsaOaepCtx/WrappedKey.py
+++ b/ccnpy/flic/RsaOaepCtx/WrappedKey.py
@@ -38,7 +38,7 @@ class WrappedKey(OctetTlvType):
                       kdf_data: Optional[KdfData], key_id: KeyId, hash_alg: HashAlg):
 
         if kdf_data is not None:
-            kdf_bytes = kdf_data.kdf_info().serialize().tobytes()
+            kdf_bytes = kdf_data.serialize().tobytes()
         else:
             kdf_bytes = b''
 
-- 
2.43.0


From 487a4fab8359479e947fce5b3604580aebb9a772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:16 +0000
Subject: [PATCH 09/49] fix: RsaOaepDecryptor.decrypt_node called its security
 context

---
 ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
index a3e34c7..3ba9161 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
@@ -55,5 +55,5 @@ class RsaOaepDecryptor(ManifestDecryptor):
         return impl.decrypt_manifest(manifest)
 
     def decrypt_node(self, security_ctx, encrypted_node, auth_tag):
-        impl = self._get_impl(security_ctx=security_ctx())
+        impl = self._get_impl(security_ctx=security_ctx)
         return impl.decrypt_node(security_ctx, encrypted_node, auth_tag)
-- 
2.43.0


From a9d78868fdbb5ffd34f9917524a2101df2779428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:22 +0000
Subject: [PATCH 10/49] fix: do not use the cached decryptor of another key or
 encryption mode

---
 ccnpy/flic/tree/DecryptorCache.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/tree/DecryptorCache.py b/ccnpy/flic/tree/DecryptorCache.py
index bb120b9..36d50ed 100644
--- a/ccnpy/flic/tree/DecryptorCache.py
+++ b/ccnpy/flic/tree/DecryptorCache.py
@@ -37,11 +37,12 @@ class DecryptorCache:
 
     def get_or_create(self, security_ctx: AeadSecurityCtx):
         # TODO: This is not correct for RsaOaep, as it uses (keyid, keynum) pair as index
-        key_num = security_ctx.key_number()
+        key_num = (type(security_ctx), security_ctx.key_number())
         if key_num == self._last_key_num:
             return self._last_decryptor
-        self._last_key_num = key_num
+        # only remember a decryptor that could be created
         self._last_decryptor = self._create(security_ctx)
+        self._last_key_num = key_num
         return self._last_decryptor
 
     def _create(self, security_ctx: AeadSecurityCtx) -> ManifestDecryptor:
-- 
2.43.0


From bac33586d208490a83115b94769b822d520ccfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 11/49] fix: parse a Pad and keep the padding of a parsed Node

---
 ccnpy/core/Pad.py       | 9 +++++----
 ccnpy/flic/tlvs/Node.py | 6 ++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/ccnpy/core/Pad.py b/ccnpy/core/Pad.py
index 8f60b27..c1dbc38 100755
--- a/ccnpy/core/Pad.py
+++ b/ccnpy/core/Pad.py
@@ -40,8 +40,9 @@ class Pad(OctetTlvType):
 
     @classmethod
     def parse(cls, tlv):
-        result = super().parse(tlv)
-        for b in result.value_bytes():
+        if tlv.type() != cls.class_type():
+            raise CannotParseError("Incorrect TLV type %r" % tlv.type())
+        for b in tlv.value():
             if b != 0:
-                raise ValueError(f'The value of a PAD must all be 0s, got: {result.value()}')
-        return result
+                raise ValueError(f'The value of a PAD must all be 0s, got: {tlv.value()}')
+        return cls(tlv.length())
diff --git a/ccnpy/flic/tlvs/Node.py b/ccnpy/flic/tlvs/Node.py
index feb0cf1..2a6e1d4 100755
--- a/ccnpy/flic/tlvs/Node.py
+++ b/ccnpy/flic/tlvs/Node.py
@@ -178,6 +178,7 @@ class Node(TlvType):
 
         node_data = None
         hash_groups = []
+        pad_length = None
 
         offset = 0
         while offset < tlv.length():
@@ -193,11 +194,12 @@ class Node(TlvType):
                 hash_groups.append(hash_group)
 
             elif inner_tlv.type() == Pad.class_type():
-                pass
+                Pad.parse(inner_tlv)
+                pad_length = len(tlv)
             else:
                 raise ParseError("Unsupported inner TLV type %r" % inner_tlv)
 
-        return cls(node_data=node_data, hash_groups=hash_groups)
+        return cls(node_data=node_data, hash_groups=hash_groups, pad_length=pad_length)
 
     @classmethod
     def create_tlv(cls, value):
-- 
2.43.0


From 5a056ef1f55caa38472729a7cf34a6411d798fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 12/49] fix: reject a Vendor TLV without a 3-byte PEN

---
 ccnpy/flic/tlvs/Vendor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/Vendor.py b/ccnpy/flic/tlvs/Vendor.py
index 1dc7f82..ddc022c 100644
--- a/ccnpy/flic/tlvs/Vendor.py
+++ b/ccnpy/flic/tlvs/Vendor.py
@@ -65,7 +65,7 @@ class Vendor(TlvType):
         if tlv.type() != cls.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv.type())
 
-        if len(tlv) < 3:
+        if tlv.length() < 3:
             raise ValueError("A Vendor TLV must have a 3-byte PEN")
 
         pen = Tlv.array_to_number(tlv.value()[0:3])
-- 
2.43.0


From fc3e852ec303bbc67407056f4f9536523a2d68c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 13/49] fix: Pointers keeps its own list of hash values

---
 ccnpy/flic/tlvs/Pointers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/Pointers.py b/ccnpy/flic/tlvs/Pointers.py
index c5a4dca..f281365 100755
--- a/ccnpy/flic/tlvs/Pointers.py
+++ b/ccnpy/flic/tlvs/Pointers.py
@@ -44,7 +44,7 @@ class Pointers(TlvType):
         if hash_values is None or not isinstance(hash_values, list):
             raise TypeError("hash_values must be a non-empty list of ccnpy.HashValue")
 
-        self._hash_values = hash_values
+        self._hash_values = list(hash_values)
         self._tlv = Tlv(self.class_type(), self._hash_values)
 
     def __len__(self):
-- 
2.43.0


From 4c532a70a017671a8b50a5c06793309daddb8847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:57 +0000
Subject: [PATCH 14/49] fix: reject a buffer that is shorter or longer than the
 packet length in its header

---
 ccnpy/core/Packet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccnpy/core/Packet.py b/ccnpy/core/Packet.py
index 4da8e3b..c351aa4 100755
--- a/ccnpy/core/Packet.py
+++ b/ccnpy/core/Packet.py
@@ -24,6 +24,7 @@ from .Name import Name
 from .Tlv import Tlv
 from .ValidationAlg import ValidationAlg
 from .ValidationPayload import ValidationPayload
+from ..exceptions.ParseError import ParseError
 from ..flic.tlvs.Locators import Locators
 
 
@@ -105,6 +106,8 @@ class Packet:
         offset = 0
         header = FixedHeader.deserialize(buffer)
         offset += header.header_length()
+        if header.packet_length() != len(buffer):
+            raise ParseError(f'packet length {header.packet_length()} does not match the buffer length {len(buffer)}')
 
         while offset < len(buffer):
             tlv = Tlv.deserialize(buffer[offset:])
-- 
2.43.0


From 86325c6220ccb91573d53cc44d1ed691b5f792d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:04 +0000
Subject: [PATCH 15/49] fix: a parsed packet keeps the bytes that its hash and
 signature cover

---
 ccnpy/core/ContentObject.py |  5 ++++-
 ccnpy/core/ValidationAlg.py | 15 +++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/ccnpy/core/ContentObject.py b/ccnpy/core/ContentObject.py
index b7d272a..7f8f9e6 100755
--- a/ccnpy/core/ContentObject.py
+++ b/ccnpy/core/ContentObject.py
@@ -217,7 +217,10 @@ class ContentObject(TlvType):
             else:
                 raise ValueError("Unsupported ContentObject TLV %r" % inner_tlv.type())
 
-        return cls(name=name, payload_type=payload_type, payload=payload, expiry_time=expiry_time, final_chunk_id=final_chunk_id)
+        result = cls(name=name, payload_type=payload_type, payload=payload, expiry_time=expiry_time, final_chunk_id=final_chunk_id)
+        # The packet hash and signature cover the bytes as received, whatever the element order or integer lengths
+        result._tlv = tlv
+        return result
 
     def serialize(self):
         return self._tlv.serialize()
diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index d4715ef..a46a35f 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -51,12 +51,15 @@ class ValidationAlg(TlvType):
         inner_tlv = Tlv.deserialize(tlv.value())
 
         if inner_tlv.type() == ValidationAlg_RsaSha256.class_type():
-            return ValidationAlg_RsaSha256.parse(inner_tlv)
-
-        if inner_tlv.type() == ValidationAlg_Crc32c.class_type():
-            return ValidationAlg_Crc32c.parse(inner_tlv)
-
-        raise ValueError("Unsupported ValidationAlg type %r" % tlv.type())
+            result = ValidationAlg_RsaSha256.parse(inner_tlv)
+        elif inner_tlv.type() == ValidationAlg_Crc32c.class_type():
+            result = ValidationAlg_Crc32c.parse(inner_tlv)
+        else:
+            raise ValueError("Unsupported ValidationAlg type %r" % tlv.type())
+
+        # The packet hash and signature cover the bytes as received
+        result._tlv = tlv
+        return result
 
     @abstractmethod
     def serialize(self):
-- 
2.43.0


From ff11c7682aacd10875b2f713cb4b91e87b0ba7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:11 +0000
Subject: [PATCH 16/49] fix: two names never share a link file

---
 ccnpy/flic/tree/TreeIO.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index c3f61af..ea02d5e 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -18,7 +18,7 @@ from abc import ABC
 from array import array
 from pathlib import PurePath, Path
 from typing import Optional, Dict
-from urllib.parse import urlparse
+from urllib.parse import quote
 
 from .SizedPointer import SizedPointer
 from ..tlvs.Locators import Locators
@@ -39,10 +39,13 @@ class TreeIO:
 
     @staticmethod
     def get_link_name(name: Name) -> str:
-        url = urlparse(name.as_uri())
-        filename = url.path
-        safename=filename.replace('/','~')
-        return f'{safename}.link'
+        # percent-encode each component, including the separator, so two names never share a file
+        components = []
+        for i in range(0, name.count()):
+            c = name.component(i)
+            value = quote(bytes(c.value()), safe='').replace('~', '%7E')
+            components.append(f'~{c.type()}={value}')
+        return f'{"".join(components)}.link'
         # name_bytes = name.serialize().tobytes()
         # return f'{name_bytes.hex()}.link'
 
@@ -272,6 +275,8 @@ class TreeIO:
             if p.body().is_link():
                 link = Link.deserialize(p.body().payload().value())
                 packet = self._load_by_hash(link.digest())
+                if packet.body().name() != name:
+                    raise ValueError(f'Link {link_path} for {name} leads to packet {packet.body().name()}')
                 print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
             raise FileNotFoundError(f'Could not find link {link_path}')
-- 
2.43.0


From 9f0316a5802c4dce4092b511ea87346d80070296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 17/49] fix: a parsed packet keeps its optional headers

---
 ccnpy/core/Packet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ccnpy/core/Packet.py b/ccnpy/core/Packet.py
index c351aa4..87b3d41 100755
--- a/ccnpy/core/Packet.py
+++ b/ccnpy/core/Packet.py
@@ -129,7 +129,10 @@ class Packet:
             else:
                 raise RuntimeError("Unsupported packet TLV type %r" % tlv.type())
 
-        return cls(header=header, body=body, validation_alg=val_alg, validation_payload=val_payload)
+        packet = cls(header=header, body=body, validation_alg=val_alg, validation_payload=val_payload)
+        # keeps the optional headers
+        packet._wire_format = array.array("B", buffer)
+        return packet
 
     @classmethod
     def load(cls, filename):
-- 
2.43.0


From 9b2c16ac109fcc1cef1d593957f60ee2acac19cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 18/49] fix: the root manifest points to the top manifest by
 its actual segment id

---
 ccnpy/flic/ManifestTree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/ManifestTree.py b/ccnpy/flic/ManifestTree.py
index 6c7b3f1..9a20d8d 100755
--- a/ccnpy/flic/ManifestTree.py
+++ b/ccnpy/flic/ManifestTree.py
@@ -102,9 +102,11 @@ class ManifestTree:
         """
         ptr = Pointers([top_manifest_packet.content_object_hash()])
 
-        # if the top manifest is SegmentedSchema, we need to include the fact that the chunk_id is 0
+        # if the top manifest is SegmentedSchema, we need to include its id, which is not 0 if the tree came out lower
+        # than planned
         if self._name_ctx.manifest_schema_impl.uses_name_id():
-            start_segment_id=StartSegmentId(0)
+            top_name = top_manifest_packet.body().name()
+            start_segment_id=StartSegmentId(top_name.component(top_name.count() - 1).value_as_number())
         else:
             start_segment_id=None
 
-- 
2.43.0


From 3e9e08c273bd451a27ead9d86ffa567144474f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:35 +0000
Subject: [PATCH 19/49] fix: reserve manifest packet space for its name, expiry
 time and group sizes

---
 ccnpy/flic/tree/ManifestSizeCalculator.py | 36 ++++++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/ccnpy/flic/tree/ManifestSizeCalculator.py b/ccnpy/flic/tree/ManifestSizeCalculator.py
index 9213860..115d18a 100644
--- a/ccnpy/flic/tree/ManifestSizeCalculator.py
+++ b/ccnpy/flic/tree/ManifestSizeCalculator.py
@@ -64,8 +64,12 @@ class ManifestSizeCalculator:
         # +1 because we already have 1 hash in the manifest
         num_hashes = int(slack / hash_value_len) + 1
 
+        # A named manifest, an expiry time, or the group sizes may need more space than the reservation above.
+        while num_hashes > 2 and len(self._build_largest_packet(num_hashes, hv)) > self._max_packet_size:
+            num_hashes -= 1
+
         # Now validate that it works
-        packet = self._build_manifest_packet(num_hashes, hv)
+        packet = self._build_largest_packet(num_hashes, hv)
         length = len(packet)
         if length > self._max_packet_size:
             raise ValueError(
@@ -80,13 +84,27 @@ class ManifestSizeCalculator:
                              "  Minimum packet_size is %r" % (self._max_packet_size, num_hashes, min_packet_size))
         return num_hashes
 
-    def _build_manifest_packet(self, num_hashes, hv):
+    def _build_largest_packet(self, num_hashes, hv):
+        """
+        The largest packet that the tree options may lead to with that many hashes: it has a name, an expiry time, and
+        the largest group sizes, if the options use those.
+        """
+        options = self._manifest_factory.tree_options()
+        return self._build_manifest_packet(num_hashes, hv,
+                                           include_leaf_size=options.add_group_leaf_size,
+                                           include_subtree_size=options.add_group_subtree_size,
+                                           group_size=self._total_bytes,
+                                           name=self._name_ctx.manifest_schema_impl.get_name(self.__MAX_MANIFEST_ID),
+                                           expiry_time=options.manifest_expiry_time)
+
+    def _build_manifest_packet(self, num_hashes, hv, include_leaf_size=True, include_subtree_size=True, group_size=0,
+                               name=None, expiry_time=None):
         # Arbitrary choise, we put n-1 into direct and 1 into indirect
         hgb = HashGroupBuilderPair(name_ctx=self._name_ctx, max_direct = num_hashes -1, max_indirect=1)
 
-        for hv in (num_hashes -1) * [hv]:
-            hgb.prepend_direct(hv)
-        hgb.prepend_indirect(hv)
+        for i in range(0, num_hashes - 1):
+            hgb.prepend_direct(hv, leaf_size=group_size if i == 0 else 0)
+        hgb.prepend_indirect(hv, subtree_size=group_size)
         if self._name_ctx.manifest_schema_impl.uses_name_id():
             indirect_start_segment_id = StartSegmentId(self.__MAX_MANIFEST_ID)
         else:
@@ -98,13 +116,15 @@ class ManifestSizeCalculator:
             direct_start_segment_id = None
 
         # include_leaf_size and include_subtree_size might reserve too much space if we do not use those.
-        hash_groups = hgb.hash_groups(include_leaf_size=True,
-                                      include_subtree_size=True,
+        hash_groups = hgb.hash_groups(include_leaf_size=include_leaf_size,
+                                      include_subtree_size=include_subtree_size,
                                       indirect_start_segment_id=indirect_start_segment_id,
                                       direct_start_segment_id=direct_start_segment_id)
 
         packet = self._manifest_factory.build_packet(source=hash_groups,
-                                               node_subtree_size=self._total_bytes)
+                                               node_subtree_size=self._total_bytes,
+                                               name=name,
+                                               expiry_time=expiry_time)
 
         return packet
 
-- 
2.43.0


From bf5048f5fc9a5d927d8ad2e9409acb0912b28c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:12 +0000
Subject: [PATCH 20/49] fix: the default key number of an encryption key is the
 same in every process

---
 ccnpy/apps/cli_utils.py       | 11 ++++++++++-
 ccnpy/apps/manifest_writer.py |  4 ----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/ccnpy/apps/cli_utils.py b/ccnpy/apps/cli_utils.py
index 9cafdcb..9d36d61 100644
--- a/ccnpy/apps/cli_utils.py
+++ b/ccnpy/apps/cli_utils.py
@@ -13,6 +13,7 @@
 #  limitations under the License.
 import argparse
 import getpass
+import hashlib
 import logging
 import uuid
 from typing import Optional
@@ -101,11 +102,19 @@ def kdf_data_from_cli(args) -> Optional[KdfData]:
     else:
         return None
 
+def key_number_from_cli_args(args) -> Optional[KeyNumber]:
+    """
+    Without a --key-num, the key number is the first 8 bytes of the SHA256 of the key, so writer and reader agree on it.
+    """
+    if args.key_num is None and args.enc_key is not None:
+        return KeyNumber(int.from_bytes(hashlib.sha256(args.enc_key).digest()[:8], byteorder='big'))
+    return args.key_num
+
 def aead_parameters_from_cli(args):
     key = aes_key_from_cli_args(args)
     params = AeadParameters(
         key=key,
-        key_number=args.key_num,
+        key_number=key_number_from_cli_args(args),
         aead_salt=args.salt,
         kdf_data=kdf_data_from_cli(args),
         kdf_salt=args.kdf_salt)
diff --git a/ccnpy/apps/manifest_writer.py b/ccnpy/apps/manifest_writer.py
index b1df5ec..0150b0e 100755
--- a/ccnpy/apps/manifest_writer.py
+++ b/ccnpy/apps/manifest_writer.py
@@ -149,10 +149,6 @@ def run():
 
     fixup_key_password(args)
 
-    if args.enc_key is not None and args.key_num is None:
-        # TODO: use something like the left 8 bytes of a sha256
-        args.key_num = hash(args.enc_key)
-
     if args.use_tcp:
         packet_writer = TreeIO.PacketNetworkWriter("127.0.0.1", 9896)
     else:
-- 
2.43.0


From c3778f331fb4f648c9b4b15f7f15d7aa08932adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 21/49] fix: manifest_reader --hash is a hash value, not a
 string

---
 ccnpy/apps/manifest_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ccnpy/apps/manifest_reader.py b/ccnpy/apps/manifest_reader.py
index 75d9d8e..0962966 100755
--- a/ccnpy/apps/manifest_reader.py
+++ b/ccnpy/apps/manifest_reader.py
@@ -13,10 +13,12 @@
 #  limitations under the License.
 
 import argparse
+import array
 import logging
 import sys
 from abc import ABC, abstractmethod
 
+from ccnpy.core.HashValue import HashValue
 from ccnpy.core.Name import Name
 from ccnpy.crypto.InsecureKeystore import InsecureKeystore
 from ccnpy.flic.tree.Traversal import Traversal
@@ -120,7 +122,9 @@ def run():
     parser = argparse.ArgumentParser()
 
     parser.add_argument('--name', dest="name", default=None, help='CCNx URI for root manifest', required=True)
-    parser.add_argument('--hash', dest="hash_restriction", default=None, help='CCNx URI for root manifest', required=False)
+    parser.add_argument('--hash', dest="hash_restriction", default=None, required=False,
+                        type=lambda x: HashValue.create_sha256(array.array("B", bytes.fromhex(x.removeprefix('0x')))),
+                        help='SHA256 hash of the root manifest (hex string)')
 
     parser.add_argument('-i', dest="in_dir", default='.', help="input directory (default=%r)" % '.')
     parser.add_argument('-T', dest="use_tcp", default=False, action=argparse.BooleanOptionalAction,
-- 
2.43.0


From 9279a785fda2bce72dd2178dd1a24eaa698ed54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 22/49] fix: the SubtreeSize of a hash group counts its
 indirect pointers without node sizes too

---
 ccnpy/flic/tree/TreeBuildReturnValue.py |  2 ++
 ccnpy/flic/tree/TreeBuilder.py          | 12 +++---------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/ccnpy/flic/tree/TreeBuildReturnValue.py b/ccnpy/flic/tree/TreeBuildReturnValue.py
index 69ded05..abaa739 100644
--- a/ccnpy/flic/tree/TreeBuildReturnValue.py
+++ b/ccnpy/flic/tree/TreeBuildReturnValue.py
@@ -29,4 +29,6 @@ class TreeBuilderReturnValue:
     node: Node
     manifest: Optional[Manifest] = None
     packet: Optional[Packet] = None
+    # The application bytes under the manifest, whether or not the node is annotated with it
+    subtree_size: Optional[int] = None
 
diff --git a/ccnpy/flic/tree/TreeBuilder.py b/ccnpy/flic/tree/TreeBuilder.py
index 5d9f6a3..18d70e6 100755
--- a/ccnpy/flic/tree/TreeBuilder.py
+++ b/ccnpy/flic/tree/TreeBuilder.py
@@ -327,7 +327,7 @@ class TreeBuilder:
         packet = self._factory.build_packet(source=node,
                                             name=self._get_next_manifest_name(level),
                                             expiry_time=self._tree_options.manifest_expiry_time)
-        return_value = TreeBuilderReturnValue(packet=packet, node=node)
+        return_value = TreeBuilderReturnValue(packet=packet, node=node, subtree_size=direct_size + indirect_size)
         return return_value
 
     def _build_leaf_packet(self, head: int, tail: int, level: int):
@@ -411,7 +411,7 @@ class TreeBuilder:
     def _interior_add_right_most_child(self, builders: HashGroupBuilderPair, right_most_child: TreeBuilderReturnValue):
         if right_most_child is not None:
             builders.append_indirect(hash_value=right_most_child.packet.content_object_hash(),
-                                     subtree_size=self._get_optional_subtree_size(right_most_child.node.node_data()))
+                                     subtree_size=right_most_child.subtree_size)
 
     def _interior_add_indirect(self, builders: HashGroupBuilderPair, segment, level: int):
         # Reserve space at the head of the segment for this node's direct pointers before
@@ -422,7 +422,7 @@ class TreeBuilder:
         while not builders.is_indirect_full() and not segment.empty():
             child = self._bottom_up_preorder(segment, level - 1)
             builders.prepend_indirect(hash_value=child.packet.content_object_hash(),
-                                      subtree_size=self._get_optional_subtree_size(child.node.node_data()))
+                                      subtree_size=child.subtree_size)
 
         # Pull back our reservation and put those pointers in our direct children
         segment.decrement_head(reserve_count)
@@ -441,12 +441,6 @@ class TreeBuilder:
         # we did not execute the while loop
         return None
 
-    def _get_optional_subtree_size(self, node_data: NodeData):
-        if self._tree_options.add_node_subtree_size:
-            return node_data.subtree_size().size()
-        else:
-            return None
-
     def _add_manifest_to_graph(self, return_value: TreeBuilderReturnValue):
         if self._manifest_graph is not None:
             self._manifest_graph.add_manifest(return_value.packet.content_object_hash(),
-- 
2.43.0


From 5f546aaf721be1b1394513ba6ce458828954ecb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:01 +0000
Subject: [PATCH 23/49] fix: reject an integer that does not fit in 8 bytes
 instead of truncating it

---
 ccnpy/core/Tlv.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index b3d344a..7c309f6 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -187,6 +187,9 @@ class Tlv(Serializable):
 
 
         """
+        if not 0 <= n < 0x10000000000000000:
+            raise ValueError(f"number {n} must be 0 or more and fit in 8 bytes")
+
         if n < 0x100:
             byte_array = [n]
         elif n < 0x10000:
@@ -210,6 +213,9 @@ class Tlv(Serializable):
         :param n:
         :return:
         """
+        if not 0 <= n < 0x10000000000000000:
+            raise ValueError(f"number {n} must be 0 or more and fit in 8 bytes")
+
         byte_array = [(n >> 56) & 0xFF, (n >> 48) & 0xFF, (n >> 40) & 0xFF, (n >> 32) & 0xFF,
                       (n >> 24) & 0xFF, (n >> 16) & 0xFF, (n >> 8) & 0xFF, n & 0xFF]
         return array.array("B", byte_array)
-- 
2.43.0


From a1a8600158bc56c692e48a8f3ac9b399561d1358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 24/49] fix: a maximum packet size near 65535 does not overflow
 the trial manifest packet

---
 ccnpy/flic/tree/ManifestSizeCalculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/tree/ManifestSizeCalculator.py b/ccnpy/flic/tree/ManifestSizeCalculator.py
index 115d18a..3ef6c64 100644
--- a/ccnpy/flic/tree/ManifestSizeCalculator.py
+++ b/ccnpy/flic/tree/ManifestSizeCalculator.py
@@ -65,8 +65,8 @@ class ManifestSizeCalculator:
         num_hashes = int(slack / hash_value_len) + 1
 
         # A named manifest, an expiry time, or the group sizes may need more space than the reservation above.
-        while num_hashes > 2 and len(self._build_largest_packet(num_hashes, hv)) > self._max_packet_size:
-            num_hashes -= 1
+        slack = max(0, self._max_packet_size - len(self._build_largest_packet(2, hv)))
+        num_hashes = min(num_hashes, int(slack / hash_value_len) + 2)
 
         # Now validate that it works
         packet = self._build_largest_packet(num_hashes, hv)
-- 
2.43.0


From eaaf942e9b19d25d85b9838e524b25d60039ebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:14 +0000
Subject: [PATCH 25/49] fix: refuse a second AuthTag in a manifest and a second
 KeyId or SignatureTime in a ValidationAlg

---
 ccnpy/core/ValidationAlg.py | 2 ++
 ccnpy/flic/tlvs/Manifest.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index a46a35f..6f3ee95 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -187,9 +187,11 @@ class ValidationAlg_RsaSha256(ValidationAlg):
         while offset < tlv.length():
             inner_tlv = Tlv.deserialize(tlv.value()[offset:])
             if inner_tlv.type() == KeyId.class_type():
+                assert keyid is None
                 keyid_tlv = KeyId.parse(inner_tlv)
                 keyid = keyid_tlv.digest()
             elif inner_tlv.type() == SignatureTime.class_type():
+                assert signature_time is None
                 signature_time = SignatureTime.parse(inner_tlv)
             elif inner_tlv.type() == cls.__T_PUBLICKEY:
                 der = inner_tlv.value()
diff --git a/ccnpy/flic/tlvs/Manifest.py b/ccnpy/flic/tlvs/Manifest.py
index 2302a41..3ac903b 100755
--- a/ccnpy/flic/tlvs/Manifest.py
+++ b/ccnpy/flic/tlvs/Manifest.py
@@ -100,6 +100,7 @@ class Manifest:
                 assert node is None
                 node = EncryptedNode.parse(tlv)
             elif tlv.type() == AuthTag.class_type():
+                assert auth_tag is None
                 auth_tag = AuthTag.parse(tlv)
             else:
                 raise ValueError("Unsupported TLV %r" % tlv)
-- 
2.43.0


From 303ef9cdd63fda617f8456afe62688d7bc8966d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:20 +0000
Subject: [PATCH 26/49] fix: refuse bytes after the only element of a
 SecurityCtx, ValidationAlg, KeyId, SubtreeDigest or Link restriction

---
 ccnpy/core/HashTlvType.py      |  2 +-
 ccnpy/core/Link.py             |  4 ++--
 ccnpy/core/Tlv.py              | 10 ++++++++++
 ccnpy/core/ValidationAlg.py    |  2 +-
 ccnpy/flic/tlvs/AeadCtx.py     |  2 +-
 ccnpy/flic/tlvs/RsaOaepCtx.py  |  2 +-
 ccnpy/flic/tlvs/SecurityCtx.py |  2 +-
 7 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/ccnpy/core/HashTlvType.py b/ccnpy/core/HashTlvType.py
index 27250ab..c9b8062 100644
--- a/ccnpy/core/HashTlvType.py
+++ b/ccnpy/core/HashTlvType.py
@@ -54,7 +54,7 @@ class HashTlvType(TlvType):
         if tlv.type() != cls.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv.type())
 
-        inner_tlv = Tlv.deserialize(tlv.value())
+        inner_tlv = Tlv.deserialize_single(tlv.value())
         digest = HashValue.parse(inner_tlv)
         return cls(digest)
 
diff --git a/ccnpy/core/Link.py b/ccnpy/core/Link.py
index 3ce5d75..c2009f4 100755
--- a/ccnpy/core/Link.py
+++ b/ccnpy/core/Link.py
@@ -109,11 +109,11 @@ class Link:
                 name = Name.parse(tlv)
             elif tlv.type() == cls.__T_KEYIDRESTR:
                 assert keyid is None
-                inner_tlv = Tlv.deserialize(tlv.value())
+                inner_tlv = Tlv.deserialize_single(tlv.value())
                 keyid = HashValue.parse(inner_tlv)
             elif tlv.type() == cls.__T_OBJHASHRESTR:
                 assert digest is None
-                inner_tlv = Tlv.deserialize(tlv.value())
+                inner_tlv = Tlv.deserialize_single(tlv.value())
                 digest = HashValue.parse(inner_tlv)
             else:
                 raise ValueError("Unsupported TLV %r" % tlv)
diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index 7c309f6..01d288e 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -106,6 +106,16 @@ class Tlv(Serializable):
 
         return cls(tlv_type, value)
 
+    @classmethod
+    def deserialize_single(cls, buffer):
+        """
+        Like `deserialize`, but the buffer must contain one TLV and nothing after it.
+        """
+        tlv = cls.deserialize(buffer)
+        if len(tlv) != len(buffer):
+            raise ParseError(f'{len(buffer) - len(tlv)} bytes after the only TLV that is allowed here')
+        return tlv
+
     @staticmethod
     def flatten(value):
         if isinstance(value, list):
diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index 6f3ee95..70f047b 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -48,7 +48,7 @@ class ValidationAlg(TlvType):
         if tlv.type() != cls.class_type():
             raise ValueError("Incorrect TLV type %r" % tlv.type())
 
-        inner_tlv = Tlv.deserialize(tlv.value())
+        inner_tlv = Tlv.deserialize_single(tlv.value())
 
         if inner_tlv.type() == ValidationAlg_RsaSha256.class_type():
             result = ValidationAlg_RsaSha256.parse(inner_tlv)
diff --git a/ccnpy/flic/tlvs/AeadCtx.py b/ccnpy/flic/tlvs/AeadCtx.py
index 1ea8bfb..453310b 100755
--- a/ccnpy/flic/tlvs/AeadCtx.py
+++ b/ccnpy/flic/tlvs/AeadCtx.py
@@ -65,7 +65,7 @@ class AeadCtx(AeadSecurityCtx):
         if tlv.type() != SecurityCtx.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv.type())
 
-        inner_tlv = Tlv.deserialize(tlv.value())
+        inner_tlv = Tlv.deserialize_single(tlv.value())
 
         if inner_tlv.type() != cls.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv)
diff --git a/ccnpy/flic/tlvs/RsaOaepCtx.py b/ccnpy/flic/tlvs/RsaOaepCtx.py
index 582f0f5..e5de2cc 100755
--- a/ccnpy/flic/tlvs/RsaOaepCtx.py
+++ b/ccnpy/flic/tlvs/RsaOaepCtx.py
@@ -74,7 +74,7 @@ class RsaOaepCtx(AeadSecurityCtx):
         if tlv.type() != SecurityCtx.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv.type())
 
-        inner_tlv = Tlv.deserialize(tlv.value())
+        inner_tlv = Tlv.deserialize_single(tlv.value())
 
         if inner_tlv.type() != cls.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv)
diff --git a/ccnpy/flic/tlvs/SecurityCtx.py b/ccnpy/flic/tlvs/SecurityCtx.py
index f6626d6..73aca09 100755
--- a/ccnpy/flic/tlvs/SecurityCtx.py
+++ b/ccnpy/flic/tlvs/SecurityCtx.py
@@ -55,7 +55,7 @@ class SecurityCtx(TlvType, ABC):
         if tlv.type() != cls.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv)
 
-        inner_tlv = Tlv.deserialize(tlv.value())
+        inner_tlv = Tlv.deserialize_single(tlv.value())
         # NOTE: AeadCtx and RsaOaepCtx are responsible for putting the "SecurityCtx" TLV around
         # their own TLV, so they are also responsible for stripping it off.
         if inner_tlv.type() == AeadCtx.class_type():
-- 
2.43.0


From 5a40a9c5255c3fee0dda28f284924207072a1e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:12 +0000
Subject: [PATCH 27/49] fix: a name constructor schema can have protocol flags

---
 ccnpy/flic/tlvs/NcSchema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/NcSchema.py b/ccnpy/flic/tlvs/NcSchema.py
index 54cd991..131ce61 100644
--- a/ccnpy/flic/tlvs/NcSchema.py
+++ b/ccnpy/flic/tlvs/NcSchema.py
@@ -55,7 +55,7 @@ class ProtocolFlagsSchema(NcSchema, ABC):
     def __init__(self, flags: Optional[ProtocolFlags] = None):
         self._flags = flags
         super().__init__()
-        self._tlv = Tlv(self.class_type(), self._flags)
+        self._tlv = Tlv(self.class_type(), [self._flags])
 
     def __len__(self):
         return len(self._tlv)
-- 
2.43.0


From 2ed8b12195f57200f3917cffef5120587b33b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 28/49] fix: times that are encoded alike are equal

---
 ccnpy/core/Timestamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index 6845331..0f2e683 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -40,7 +40,7 @@ class Timestamp(TlvType, ABC):
         self._wire_format = self._tlv.serialize()
 
     def __eq__(self, other):
-        return type(self) is type(other) and self.timestamp() == other.timestamp()
+        return type(self) is type(other) and self.milliseconds() == other.milliseconds()
 
     def __repr__(self):
         return "%r: %r" % (self.__class__.__name__, self.datetime().isoformat())
-- 
2.43.0


From d7a9f6ff03ab49be5a06dec01c3f163be312cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 29/49] fix: refuse an authentication tag that is not 16 bytes

---
 ccnpy/crypto/AeadKey.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccnpy/crypto/AeadKey.py b/ccnpy/crypto/AeadKey.py
index 274ec3d..da4b40b 100755
--- a/ccnpy/crypto/AeadKey.py
+++ b/ccnpy/crypto/AeadKey.py
@@ -119,6 +119,10 @@ class AeadKey(ABC):
         if isinstance(associated_data, array.array):
             associated_data = associated_data.tobytes()
 
+        if len(auth_tag) != self._tag_len:
+            # otherwise bytes could move between the ciphertext and the tag
+            raise DecryptionError(f"The auth tag must have {self._tag_len} bytes, got {len(auth_tag)}")
+
         combined = ciphertext + auth_tag
 
         if self.DEBUG:
-- 
2.43.0


From 46d50dea9c8a48d6219a40f738df5235f8901f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:58 +0000
Subject: [PATCH 30/49] fix: a reader kept using a key the keystore had
 replaced

---
 ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py |  9 ++++++---
 ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py      |  3 +++
 ccnpy/flic/tree/DecryptorCache.py         | 15 ++++++++++++++-
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
index 3ba9161..3f6e8ec 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
@@ -19,7 +19,7 @@ from ..ManifestDecryptor import ManifestDecryptor
 from ..tlvs.KeyNumber import KeyNumber
 from ..tlvs.RsaOaepCtx import RsaOaepCtx
 from ...core.KeyId import KeyId
-from ...crypto.InsecureKeystore import InsecureKeystore
+from ...crypto.InsecureKeystore import InsecureKeystore, KeyNumberNotFoundError
 
 
 class RsaOaepDecryptor(ManifestDecryptor):
@@ -41,8 +41,11 @@ class RsaOaepDecryptor(ManifestDecryptor):
 
     def _get_impl(self, security_ctx: RsaOaepCtx) -> RsaOaepImpl:
         try:
-            return self._cache.get(key_id=security_ctx.key_id(), key_number=security_ctx.key_number())
-        except KeyError:
+            impl = self._cache.get(key_id=security_ctx.key_id(), key_number=security_ctx.key_number())
+            # the keystore may have a new key for the key number
+            if impl.uses(self._keystore.get_aes_key(security_ctx.key_number())):
+                return impl
+        except (KeyError, KeyNumberNotFoundError):
             pass
 
         impl = RsaOaepImpl.create(keystore=self._keystore, rsa_oaep_ctx=security_ctx)
diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py b/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
index 2050768..f98b6eb 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
@@ -111,6 +111,9 @@ class RsaOaepImpl(AeadImpl):
         self._wrapper = wrapper
         super().__init__(params=aead_params)
 
+    def uses(self, aead_params: AeadParameters) -> bool:
+        return self._params is aead_params
+
     def __repr__(self):
         return f'RsaOaepImpl: ({self._params}, {self._wrapper})'
 
diff --git a/ccnpy/flic/tree/DecryptorCache.py b/ccnpy/flic/tree/DecryptorCache.py
index 36d50ed..e81bb78 100644
--- a/ccnpy/flic/tree/DecryptorCache.py
+++ b/ccnpy/flic/tree/DecryptorCache.py
@@ -11,6 +11,8 @@
 #  WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
 #  See the License for the specific language governing permissions and
 #  limitations under the License.
+from typing import Optional
+
 from ccnpy.crypto.InsecureKeystore import InsecureKeystore
 from ccnpy.flic.ManifestDecryptor import ManifestDecryptor
 from ccnpy.flic.RsaOaepCtx.RsaOaepDecryptor import RsaOaepDecryptor
@@ -32,19 +34,30 @@ class DecryptorCache:
     def __init__(self, keystore: InsecureKeystore):
         self._keystore = keystore
         self._last_key_num = None
+        self._last_params = None
         self._last_decryptor = None
         self._oaep_decryptor = RsaOaepDecryptor(keystore=self._keystore)
 
     def get_or_create(self, security_ctx: AeadSecurityCtx):
         # TODO: This is not correct for RsaOaep, as it uses (keyid, keynum) pair as index
         key_num = (type(security_ctx), security_ctx.key_number())
-        if key_num == self._last_key_num:
+        if key_num == self._last_key_num and self._last_params is self._current_params(security_ctx):
             return self._last_decryptor
         # only remember a decryptor that could be created
         self._last_decryptor = self._create(security_ctx)
         self._last_key_num = key_num
+        self._last_params = self._current_params(security_ctx)
         return self._last_decryptor
 
+    def _current_params(self, security_ctx: AeadSecurityCtx) -> Optional[AeadParameters]:
+        """
+        The parameters a decryptor depends on: when the keystore has new ones for the key number, the
+        remembered decryptor is stale.  The RsaOaepDecryptor checks this itself.
+        """
+        if isinstance(security_ctx, AeadCtx):
+            return self._keystore.get_aes_key(security_ctx.key_number())
+        return None
+
     def _create(self, security_ctx: AeadSecurityCtx) -> ManifestDecryptor:
         # TODO: implement for RsaOaep too
         if isinstance(security_ctx, AeadCtx):
-- 
2.43.0


From c04b427f6763321bdc93aa33b47caa90e9437ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:31 +0000
Subject: [PATCH 31/49] fix: a packet with a long name can be linked

---
 ccnpy/flic/tree/TreeIO.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index ea02d5e..99570ea 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -12,6 +12,7 @@
 #  See the License for the specific language governing permissions and
 #  limitations under the License.
 
+import hashlib
 import os
 import socket
 from abc import ABC
@@ -37,6 +38,8 @@ class TreeIO:
 
     """
 
+    MAX_FILE_NAME = 255
+
     @staticmethod
     def get_link_name(name: Name) -> str:
         # percent-encode each component, including the separator, so two names never share a file
@@ -45,7 +48,11 @@ class TreeIO:
             c = name.component(i)
             value = quote(bytes(c.value()), safe='').replace('~', '%7E')
             components.append(f'~{c.type()}={value}')
-        return f'{"".join(components)}.link'
+        filename = f'{"".join(components)}.link'
+        if len(filename) > TreeIO.MAX_FILE_NAME:
+            # too long for a file name, so use the hash of the name
+            filename = f'{hashlib.sha256(name.serialize().tobytes()).hexdigest()}.link'
+        return filename
         # name_bytes = name.serialize().tobytes()
         # return f'{name_bytes.hex()}.link'
 
-- 
2.43.0


From 34366e46be1e89f7ce6b0d95aeefd99e3bcbd3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:21 +0000
Subject: [PATCH 32/49] fix: a plan for one data object has no negative number
 of internal nodes

---
 ccnpy/flic/tree/TreeOptimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/TreeOptimizer.py b/ccnpy/flic/tree/TreeOptimizer.py
index d5750f5..d24912e 100755
--- a/ccnpy/flic/tree/TreeOptimizer.py
+++ b/ccnpy/flic/tree/TreeOptimizer.py
@@ -86,8 +86,9 @@ class TreeOptimizer:
             else:
                 return 1
 
+        # If all the data fits in one leaf with room to spare, the ceiling could be negative.
         k = math.ceil((self._num_direct_nodes - d - m) / (m * (d + m - 1)))
-        return k
+        return max(0, k)
 
     @staticmethod
     def calculate_n(k, d, m):
-- 
2.43.0


From 3ce84d8ff90c2810beb7a47f75acb087444be164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:22 +0000
Subject: [PATCH 33/49] fix: a plan of one manifest without indirect pointers
 can be built

---
 ccnpy/flic/tree/ManifestIdFactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/ManifestIdFactory.py b/ccnpy/flic/tree/ManifestIdFactory.py
index 107c70f..7a5df2d 100644
--- a/ccnpy/flic/tree/ManifestIdFactory.py
+++ b/ccnpy/flic/tree/ManifestIdFactory.py
@@ -33,7 +33,8 @@ class ManifestIdFactory:
 
         This comes from the number of nodes per level for a k-ary tree.
         """
-        if self._tree_degree == 1:
+        # With a degree of 1 there is one node per level, and with a degree of 0 there is only one node.
+        if self._tree_degree in (0, 1):
             return h
         assert self._tree_degree > 1
         return int((pow(self._tree_degree, (h+1))-1) / (self._tree_degree-1) - 1)
-- 
2.43.0


From 4c47861b429135cd625d775299664019ddb11214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:42 +0000
Subject: [PATCH 34/49] fix: the password of a PEM key can be given on the
 command line

---
 ccnpy/crypto/RsaKey.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccnpy/crypto/RsaKey.py b/ccnpy/crypto/RsaKey.py
index 73aa630..849aafc 100755
--- a/ccnpy/crypto/RsaKey.py
+++ b/ccnpy/crypto/RsaKey.py
@@ -69,6 +69,8 @@ class RsaKey:
     def __initialize_private_key(self, pem_key, password):
         if password is not None and len(password) == 0:
             password = None
+        if isinstance(password, str):
+            password = password.encode()
         self._private_key = serialization.load_pem_private_key(
                                 pem_key,
                                 password=password,
-- 
2.43.0


From 3991716ee94f358168a22e57f811c3c18063ed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:26 +0000
Subject: [PATCH 35/49] fix: a name keeps its own component list and Name() is
 the empty name

---
 ccnpy/core/Name.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index 55dfb97..5680bd0 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -85,10 +85,11 @@ class Name(TlvType):
     def __init__(self, components: Optional[List[NameComponent]] = None):
         """
 
-        :param components: An array of NameComponents
+        :param components: An array of NameComponents (None is an empty name)
         """
         TlvType.__init__(self)
-        self._components = components
+        # a copy, so the name does not change with the caller's list
+        self._components = [] if components is None else list(components)
         self._tlv = Tlv(self.class_type(), self._components)
 
     def __len__(self):
@@ -123,10 +124,7 @@ class Name(TlvType):
         """
         Create a new Name by appending the given name component
         """
-        if self._components is not None:
-            extended = self._components.copy()
-        else:
-            extended = []
+        extended = self._components.copy()
         extended.append(component)
         return Name(extended)
 
-- 
2.43.0


From d84586275b54e61253658443c00f1d18a24424a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:35 +0000
Subject: [PATCH 36/49] fix: a URI segment '.' and the first segment of a URI
 without a leading slash are name segments too

---
 ccnpy/core/Name.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index 5680bd0..70bdb97 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -12,7 +12,6 @@
 #  See the License for the specific language governing permissions and
 #  limitations under the License.
 from array import array
-from pathlib import PurePath
 from typing import List, Optional
 from urllib.parse import urlparse
 
@@ -197,12 +196,12 @@ class Name(TlvType):
             return None
         p = urlparse(uri)
         assert(p.scheme == 'ccnx')
-        path = PurePath(p.path)
         components = []
-        # The first element of the array is '/', so skip it
-        for component in path.parts[1:]:
-            a = component.encode()
-            c = NameComponent.create_name_segment(value=a)
-            components.append(c)
+        # Every non-empty path segment is a name segment.  '.' has no special meaning.
+        for component in p.path.split('/'):
+            if len(component) > 0:
+                a = component.encode()
+                c = NameComponent.create_name_segment(value=a)
+                components.append(c)
 
         return cls(components)
-- 
2.43.0


From 4117686649ac3593d32de28d5703abc7a71d174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:24 +0000
Subject: [PATCH 37/49] fix: a packet file that is stored again is replaced in
 one step instead of truncated first

---
 ccnpy/flic/tree/TreeIO.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 99570ea..2f702d2 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -15,6 +15,7 @@
 import hashlib
 import os
 import socket
+import threading
 from abc import ABC
 from array import array
 from pathlib import PurePath, Path
@@ -188,7 +189,7 @@ class TreeIO:
 
         def put(self, packet: Packet):
             self.total_bytes_by_packet += len(packet)
-            packet.save(self.to_path(input=packet, nested=self._nested))
+            self._save(packet, self.to_path(input=packet, nested=self._nested))
             self._write_link(packet)
             if packet.content_object_hash() not in self.by_hash:
                 self.total_bytes_by_hash += len(packet)
@@ -200,6 +201,17 @@ class TreeIO:
                     self.cnt_data += 1
                     self.bytes_data += len(packet)
 
+        @staticmethod
+        def _save(packet: Packet, path: PurePath):
+            # Replace the file in one step, so a packet that is already stored is never seen truncated
+            temporary = PurePath(path.parent, f'.{os.getpid()}-{threading.get_ident()}.tmp')
+            try:
+                packet.save(temporary)
+                os.replace(temporary, path)
+            except Exception:
+                Path(temporary).unlink(missing_ok=True)
+                raise
+
         def _create_link(self, packet: Packet) -> Packet:
             link = Link(name=packet.body().name(), digest=packet.content_object_hash())
             link_object = ContentObject.create_link(name=packet.body().name(), link=link)
@@ -211,7 +223,7 @@ class TreeIO:
             if packet.body().name() is None:
                 return
             link_packet = self._create_link(packet=packet)
-            link_packet.save(self.to_path(packet.body().name()))
+            self._save(link_packet, self.to_path(packet.body().name()))
 
         def _create_signed_packet(self, link_object: ContentObject) -> Packet:
             if self._signer is None:
-- 
2.43.0


From 0b23c5180cb31245f477753a239b208c0a5ccecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:12 +0000
Subject: [PATCH 38/49] fix: a name segment that is not UTF-8 could not be
 printed

---
 ccnpy/core/Name.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index 70bdb97..eb853fe 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -57,7 +57,7 @@ class NameComponent(Tlv):
         if t == NameComponent.__T_CHUNKID:
             return f'ChunkId={Tlv.array_to_number(self.value())}'
         if t == NameComponent.__T_NAMESEGMENT:
-            return f'Name={self.value().decode('UTF-8')}'
+            return f'Name={self.value().decode('UTF-8', errors='backslashreplace')}'
         if t == NameComponent.__T_MANIFESTID:
             return f'ManifestId={Tlv.array_to_number(self.value())}'
         if t == NameComponent.__T_IPID:
-- 
2.43.0


From 0264268876ec4ef2e370d1d31413bcd45f0887dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:12 +0000
Subject: [PATCH 39/49] fix: packet_reader failed on an intact packet whose
 manifest it cannot decrypt

---
 ccnpy/apps/packet_reader.py | 3 ++-
 ccnpy/apps/packet_utils.py  | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ccnpy/apps/packet_reader.py b/ccnpy/apps/packet_reader.py
index 5338b57..ac90958 100755
--- a/ccnpy/apps/packet_reader.py
+++ b/ccnpy/apps/packet_reader.py
@@ -65,7 +65,8 @@ class PacketReader:
             # if manifest is not encrypted, we already output in the packet dump, no need to repeat
             if manifest.is_encrypted():
                 manifest = decrypt_manifest(keystore=self._keystore, manifest=manifest)
-                self._output(manifest)
+                if manifest is not None:
+                    self._output(manifest)
 
 
 def run():
diff --git a/ccnpy/apps/packet_utils.py b/ccnpy/apps/packet_utils.py
index 92c0909..7b23ce9 100644
--- a/ccnpy/apps/packet_utils.py
+++ b/ccnpy/apps/packet_utils.py
@@ -80,7 +80,11 @@ def decrypt_manifest(keystore: InsecureKeystore, manifest: Manifest) -> Manifest
         print(f"Unsupported encryption mode: {security_ctx}")
         return None
 
+    if decryptor is None:
+        return None
+
     try:
         return decryptor.decrypt_manifest(manifest)
-    except DecryptionError as e:
+    except (DecryptionError, KeyIdNotFoundError, ValueError) as e:
         print(f"Failed decryption: {e}")
+        return None
-- 
2.43.0


From 26f878a14ea7fb838f84b24bd42bc006313fcdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:12 +0000
Subject: [PATCH 40/49] fix: no exact plan for 2^32 data objects or more

---
 ccnpy/flic/tree/OptimizerResult.py | 3 ++-
 ccnpy/flic/tree/TreeOptimizer.py   | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ccnpy/flic/tree/OptimizerResult.py b/ccnpy/flic/tree/OptimizerResult.py
index b9991de..f149956 100755
--- a/ccnpy/flic/tree/OptimizerResult.py
+++ b/ccnpy/flic/tree/OptimizerResult.py
@@ -85,7 +85,8 @@ class OptimizerResult:
             self.logger.debug(f"internal capacity is {num_internal_direct}, so no leaf nodes required, remaining = {remaining}")
             return 0
         leaf_capacity = self._num_pointers
-        leaf_nodes = int(math.ceil(remaining / leaf_capacity))
+        # integer ceiling, because a float division is not exact for large trees
+        leaf_nodes = -(-remaining // leaf_capacity)
         return leaf_nodes
 
     def _sanity_check(self):
diff --git a/ccnpy/flic/tree/TreeOptimizer.py b/ccnpy/flic/tree/TreeOptimizer.py
index d24912e..02457b1 100755
--- a/ccnpy/flic/tree/TreeOptimizer.py
+++ b/ccnpy/flic/tree/TreeOptimizer.py
@@ -87,7 +87,8 @@ class TreeOptimizer:
                 return 1
 
         # If all the data fits in one leaf with room to spare, the ceiling could be negative.
-        k = math.ceil((self._num_direct_nodes - d - m) / (m * (d + m - 1)))
+        # Integer ceiling, because a float division is not exact for large trees.
+        k = -((d + m - self._num_direct_nodes) // (m * (d + m - 1)))
         return max(0, k)
 
     @staticmethod
@@ -146,7 +147,7 @@ class TreeOptimizer:
         """
         solutions = self.minimize_waste()
         print(solutions)
-        min_height = 0xFFFFFFFF
+        min_height = math.inf
         min_solution = None
         for s in solutions:
             if s.tree_height() < min_height:
-- 
2.43.0


From b38092c116e85af247ca5bcad363e2bb7cfda52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:22 +0000
Subject: [PATCH 41/49] fix: a publication with an empty name could not be put
 in a manifest graph

---
 ccnpy/flic/tree/ManifestGraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/tree/ManifestGraph.py b/ccnpy/flic/tree/ManifestGraph.py
index 700ec69..49fc33c 100644
--- a/ccnpy/flic/tree/ManifestGraph.py
+++ b/ccnpy/flic/tree/ManifestGraph.py
@@ -65,8 +65,8 @@ class ManifestGraph:
     @classmethod
     def _label_from_name(cls, hash_value: HashValue, name: Name):
         if name is not None:
-            last_segment = name.component(name.count()-1)
-            if last_segment.type() in [NameComponent.manifest_id_type(), NameComponent.chunk_id_type()]:
+            last_segment = name.component(name.count()-1) if name.count() > 0 else None
+            if last_segment is not None and last_segment.type() in [NameComponent.manifest_id_type(), NameComponent.chunk_id_type()]:
                 return str(last_segment.value_as_number())
             else:
                 return name.as_uri()
-- 
2.43.0


From f6162bde43f2d7da84c6dfb54873d362200444c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:22 +0000
Subject: [PATCH 42/49] fix: packets whose hashes begin alike were one node of
 the manifest graph

---
 ccnpy/flic/tree/ManifestGraph.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/tree/ManifestGraph.py b/ccnpy/flic/tree/ManifestGraph.py
index 49fc33c..d00771c 100644
--- a/ccnpy/flic/tree/ManifestGraph.py
+++ b/ccnpy/flic/tree/ManifestGraph.py
@@ -113,7 +113,7 @@ class ManifestGraph:
     def _create_graph(self):
         self._graph = nx.DiGraph()
         for entry in self._entries.values():
-            entry_name = self._hash_to_name(entry.parent)
+            entry_name = self._hash_to_id(entry.parent)
             if entry.is_data:
                 options = {
                     'color': 'green',
@@ -130,7 +130,7 @@ class ManifestGraph:
                 }
             self._graph.add_node(entry_name, **options)
             for child_hash in entry.children:
-                child_name = self._hash_to_name(child_hash)
+                child_name = self._hash_to_id(child_hash)
                 self._graph.add_edge(entry_name, child_name, weight=0.2)
 
     def plot(self):
@@ -181,6 +181,11 @@ class ManifestGraph:
 
         plt.show()
 
+    @staticmethod
+    def _hash_to_id(hash_value: HashValue) -> str:
+        # the whole hash, so every packet has a graph node of its own
+        return DisplayFormatter.hexlify(hash_value.value())
+
     @staticmethod
     def _hash_to_name(hash_value: HashValue) -> str:
         # only include the first 4 bytes
-- 
2.43.0


From 32a86fc257209a0b924cfbe995cfd6e0b0d053af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:26 +0000
Subject: [PATCH 43/49] fix: resume the graph when the optimal tree cannot be
 calculated

---
 ccnpy/flic/ManifestTree.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ccnpy/flic/ManifestTree.py b/ccnpy/flic/ManifestTree.py
index 9a20d8d..c28e665 100755
--- a/ccnpy/flic/ManifestTree.py
+++ b/ccnpy/flic/ManifestTree.py
@@ -144,9 +144,10 @@ class ManifestTree:
     def _calculate_optimal_tree(self, file_metadata: FileMetadata, manifest_factory: ManifestFactory) -> TreeParameters:
         if self._manifest_graph is not None:
             self._manifest_graph.pause()
-        optimized_params = TreeParameters.create_optimized_tree(file_metadata=file_metadata,
-                                                                manifest_factory=manifest_factory,
-                                                                name_ctx=self._name_ctx)
-        if self._manifest_graph is not None:
-            self._manifest_graph.resume()
-        return optimized_params
+        try:
+            return TreeParameters.create_optimized_tree(file_metadata=file_metadata,
+                                                        manifest_factory=manifest_factory,
+                                                        name_ctx=self._name_ctx)
+        finally:
+            if self._manifest_graph is not None:
+                self._manifest_graph.resume()
-- 
2.43.0


From 26f07e6496b1ea2a2890094d5aa62cf39b47c753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:26 +0000
Subject: [PATCH 44/49] fix: the segmented schema can name the next chunk
 (get_next_name)

---
 ccnpy/flic/name_constructor/SchemaImpl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/name_constructor/SchemaImpl.py b/ccnpy/flic/name_constructor/SchemaImpl.py
index 58b2c4c..3f8115e 100644
--- a/ccnpy/flic/name_constructor/SchemaImpl.py
+++ b/ccnpy/flic/name_constructor/SchemaImpl.py
@@ -54,7 +54,7 @@ class SchemaImpl(ABC):
         counter to track the generated names.
         """
         next_chunk_id = self._get_and_increment_next_chunk_id()
-        return self.get_name(chunk_id=next_chunk_id)
+        return self.get_name(next_chunk_id)
 
     def nc_id(self) -> NcId:
         return self._nc_id
-- 
2.43.0


From 90e273e67250e3707e213a35a906b2774f267ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:29 +0000
Subject: [PATCH 45/49] fix: read trees that are higher than the recursion
 limit

---
 ccnpy/flic/tree/Traversal.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/ccnpy/flic/tree/Traversal.py b/ccnpy/flic/tree/Traversal.py
index 883468e..571c972 100755
--- a/ccnpy/flic/tree/Traversal.py
+++ b/ccnpy/flic/tree/Traversal.py
@@ -101,6 +101,21 @@ class Traversal:
         :param nc_cache: The name constructor cache.  It may be modified as we traverse down branches.
         :return:
         """
+        # The visits from `packet` down to the current packet.  This does not recurse, because a tree with a small degree
+        # may be higher than the recursion limit.
+        branch = [self._visit(packet=packet, nc_cache=nc_cache)]
+        while len(branch) > 0:
+            child = next(branch[-1], None)
+            if child is None:
+                branch.pop()
+            else:
+                child_packet, child_nc_cache = child
+                branch.append(self._visit(packet=child_packet, nc_cache=child_nc_cache))
+
+    def _visit(self, packet: Packet, nc_cache: Optional[NameConstructorCache]):
+        """
+        Process one packet.  This is a generator of the packet's children, with the name constructor cache to use for them.
+        """
         self.logger.debug('Preorder %s => %s', packet.content_object_hash(), packet)
 
         if nc_cache is None:
@@ -123,7 +138,7 @@ class Traversal:
 
             nc_cache = self._update_nc_cache(nc_cache=nc_cache, manifest=manifest)
             try:
-                self._visit_children(parent_packet=packet, manifest=manifest, nc_cache=nc_cache)
+                yield from self._visit_children(parent_packet=packet, manifest=manifest, nc_cache=nc_cache)
             except Exception as e:
                 print(f'Error {e} processing {manifest}')
                 raise
@@ -148,7 +163,7 @@ class Traversal:
         """
         A child may be a direct pointer to local data or an indirect pointer to another
         manifest.  In the pre-order traversal, we do not distinguish (nor can we) between these.
-        Our commitment is to visit all children in order.
+        Our commitment is to visit all children in order.  This is a generator of the children.
 
         :param manifest:
         :param nc_cache: name constructor cache for the current branch
@@ -169,7 +184,7 @@ class Traversal:
             self.logger.debug('visit_children: child %s', packet)
 
             self._validator.validate_packet(packet=packet)
-            self.preorder(packet=packet, nc_cache=nc_cache)
+            yield packet, nc_cache
 
         if self.logger.isEnabledFor(logging.DEBUG):
             packet_id = DisplayFormatter.hexlify(parent_packet.content_object_hash().value())
-- 
2.43.0


From dfbf5e751296983a397569d754ad06ff04b892ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:14 +0000
Subject: [PATCH 46/49] fix: a manifest packet is signed by the signer given
 for it

---
 ccnpy/flic/ManifestFactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/ManifestFactory.py b/ccnpy/flic/ManifestFactory.py
index 92e3fa0..c22a52b 100755
--- a/ccnpy/flic/ManifestFactory.py
+++ b/ccnpy/flic/ManifestFactory.py
@@ -99,8 +99,8 @@ class ManifestFactory:
                                           expiry_time=expiry_time)
 
         if signer is not None:
-            validation_alg = self._tree_options.signer.validation_alg()
-            validation_payload = self._tree_options.signer.sign(body.serialize(), validation_alg.serialize())
+            validation_alg = signer.validation_alg()
+            validation_payload = signer.sign(body.serialize(), validation_alg.serialize())
             packet = Packet.create_signed_content_object(body, validation_alg, validation_payload)
         else:
             packet = Packet.create_content_object(body)
-- 
2.43.0


From 2276a6bfbb512b62962d9d0c0112d44d9b35313b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:29 +0000
Subject: [PATCH 47/49] fix: text read to standard output keeps characters
 split over two packets

---
 ccnpy/apps/manifest_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ccnpy/apps/manifest_reader.py b/ccnpy/apps/manifest_reader.py
index 0962966..fac0308 100755
--- a/ccnpy/apps/manifest_reader.py
+++ b/ccnpy/apps/manifest_reader.py
@@ -14,6 +14,7 @@
 
 import argparse
 import array
+import codecs
 import logging
 import sys
 from abc import ABC, abstractmethod
@@ -42,6 +43,8 @@ class ManifestReader(ABC):
 class StdOutWrapper:
     def __init__(self):
         self._out = sys.stdout
+        # a character may be split over two writes
+        self._decoder = codecs.getincrementaldecoder('utf-8')(errors='ignore')
 
     def __enter__(self):
         return self
@@ -53,7 +56,7 @@ class StdOutWrapper:
 
     def write(self, value):
         if not isinstance(value, str):
-            value = value.tobytes().decode('utf-8', errors='ignore')
+            value = self._decoder.decode(value.tobytes())
         self._out.write(value)
 
 class ManifestNetworkReader(ManifestReader):
-- 
2.43.0


From 5cc10765432263a868c3b5c2809d0c5f4dd53503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:16 +0000
Subject: [PATCH 48/49] fix: a content object without a payload can be shown

---
 ccnpy/core/ContentObject.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ccnpy/core/ContentObject.py b/ccnpy/core/ContentObject.py
index 7f8f9e6..cbec2e8 100755
--- a/ccnpy/core/ContentObject.py
+++ b/ccnpy/core/ContentObject.py
@@ -146,7 +146,9 @@ class ContentObject(TlvType):
                                             self._final_chunk_id])
 
     def __repr__(self):
-        if self.is_manifest():
+        if self._payload is None:
+            payload = None
+        elif self.is_manifest():
             from ccnpy.flic.tlvs.Manifest import Manifest
             try:
                 payload = Manifest.deserialize(self._payload.value())
-- 
2.43.0


From 2dedf07ceb9888dc5c7242332106272e47af39cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:22 +0000
Subject: [PATCH 49/49] fix: the planned height of a large tree is exact

---
 ccnpy/flic/tree/OptimizerResult.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ccnpy/flic/tree/OptimizerResult.py b/ccnpy/flic/tree/OptimizerResult.py
index f149956..abcdf44 100755
--- a/ccnpy/flic/tree/OptimizerResult.py
+++ b/ccnpy/flic/tree/OptimizerResult.py
@@ -73,10 +73,12 @@ class OptimizerResult:
             # we need _num_data_objects leaf pointers, so that happens at
             return int(math.ceil(math.log(self._num_data_objects, self._direct_per_node)))
 
-        k = self._indirect_per_node
-        n = self.total_nodes()
-        arg = (k-1) * n + 1
-        return int(math.ceil(math.log(arg, self._indirect_per_node) - 1))
+        # count the levels, because a float logarithm is not exact for large trees
+        height, nodes = 0, 1
+        while nodes < self.total_nodes():
+            height += 1
+            nodes = nodes * self._indirect_per_node + 1
+        return height
 
     def _calculate_num_leaf_nodes(self):
         num_internal_direct = self._num_internal_nodes * self._direct_per_node
-- 
2.43.0

