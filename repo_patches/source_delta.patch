From 0c595d51967df06e3914f4227ce47ebe526e4634 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 01/12] fix: combine the first two sub-identifiers of an OID by
 addition

---
 snmp/asn1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index aeae5cc..573a89c 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -458,7 +458,7 @@ class OBJECT_IDENTIFIER(Primitive):
             second = 0
 
         encoding = bytearray()
-        self.serializeSubIdentifier(encoding, first * 40 | second)
+        self.serializeSubIdentifier(encoding, first * 40 + second)
         for subidentifier in self.subidentifiers[2:]:
             self.serializeSubIdentifier(encoding, subidentifier)
 
-- 
2.43.0


From 18b706cd461846864ee8f67dee6c5461627cc5ac Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 02/12] fix: give subbytes length zero when stop precedes start

---
 snmp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/utils.py b/snmp/utils.py
index 8e93969..e9f4a6d 100644
--- a/snmp/utils.py
+++ b/snmp/utils.py
@@ -130,7 +130,7 @@ class subbytes:
         newstop  = base.stop  if stop  is None else base.translate(stop,  True)
 
         self._start = newstart
-        self._stop  = newstop
+        self._stop  = max(newstart, newstop)
 
     @property
     def data(self) -> bytes:
-- 
2.43.0


From 083b3521a2892a8da6e0c48747462b0ac02cf30e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 03/12] fix: decode an IpAddress index as four sub-identifiers

---
 snmp/smi.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/snmp/smi.py b/snmp/smi.py
index a4257f5..6944c34 100644
--- a/snmp/smi.py
+++ b/snmp/smi.py
@@ -6,6 +6,7 @@ __all__ = [
     "Sequence",
 ]
 
+from itertools import islice
 from socket import inet_aton, inet_ntoa
 
 from snmp.asn1 import *
@@ -121,6 +122,13 @@ class IpAddress(OCTET_STRING):
     def asOID(self, implied: bool = False) -> Iterable[int]:
         return super().asOID(implied=True)
 
+    @classmethod
+    def fromOID(cls,
+        nums: Iterator[int],
+        implied: bool = False,
+    ) -> "IpAddress":
+        return super().fromOID(islice(nums, 4), implied=True)
+
     @classmethod
     def construct(cls, data: Asn1Data) -> "IpAddress":
         if isinstance(data, subbytes):
-- 
2.43.0


From 0dc257c64fed8cd6a7a9e5a6970a49d9e8ea79e5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 04/12] fix: report malformed string and OID indices as
 IndexDecodeError

---
 snmp/asn1.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index 573a89c..90bbd45 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -185,14 +185,14 @@ class OCTET_STRING(Primitive):
         implied: bool = False,
     ) -> TOCTET_STRING:
         if implied:
-            data = bytes(nums)
+            octets = list(nums)
         else:
             length = next(nums)
-            data = bytes([next(nums) for _ in range(length)])
+            octets = [next(nums) for _ in range(length)]
 
         try:
-            return cls.construct(data)
-        except ParseError as err:
+            return cls.construct(bytes(octets))
+        except (ParseError, ValueError) as err:
             raise OBJECT_IDENTIFIER.IndexDecodeError(*err.args) from err
 
     @classmethod
@@ -331,10 +331,10 @@ class OBJECT_IDENTIFIER(Primitive):
         implied: bool = False,
     ) -> TOID:
         if implied:
-            subidentifiers = nums
+            subidentifiers = list(nums)
         else:
             length = next(nums)
-            subidentifiers = (next(nums) for _ in range(length))
+            subidentifiers = [next(nums) for _ in range(length)]
 
         try:
             return cls.construct(*subidentifiers)
-- 
2.43.0


From 596c940afcb2a9f18092639b9ae110161f5b104f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 05/12] fix: return exactly the bytes that OpenSSL produced

---
 snmp/security/usm/priv/openssl/__init__.py | 2 +-
 snmp/security/usm/priv/openssl/des.py      | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/snmp/security/usm/priv/openssl/__init__.py b/snmp/security/usm/priv/openssl/__init__.py
index c80d042..0aaebfd 100644
--- a/snmp/security/usm/priv/openssl/__init__.py
+++ b/snmp/security/usm/priv/openssl/__init__.py
@@ -64,7 +64,7 @@ class Envelope:
             if not self.update(ctx, output, outl, data, inl):
                 raise Exception("Failed to update cipher context")
 
-            return bytes(output)
+            return bytes(ffi.buffer(output, outl[0]))
 
 class Decryptor(Envelope):
     ENCRYPT = False
diff --git a/snmp/security/usm/priv/openssl/des.py b/snmp/security/usm/priv/openssl/des.py
index 902df86..43c0749 100644
--- a/snmp/security/usm/priv/openssl/des.py
+++ b/snmp/security/usm/priv/openssl/des.py
@@ -43,7 +43,9 @@ class DesCbc(PrivProtocol):
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
 
         iv = self.computeIV(salt)
-        return Decryptor(self.CIPHER).decrypt(data, self.key, iv)
+
+        # OpenSSL withholds the final block, in case it contains padding
+        return Decryptor(self.CIPHER).decrypt(self.pad(data), self.key, iv)
 
     def encrypt(self,
         data: bytes,
-- 
2.43.0


From 88bb999973c7c5121ab981d37b01337975a2a374 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 06/12] fix: reject a DES salt of the wrong length

---
 snmp/security/usm/priv/openssl/des.py      | 3 +++
 snmp/security/usm/priv/pycryptodome/des.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/snmp/security/usm/priv/openssl/des.py b/snmp/security/usm/priv/openssl/des.py
index 43c0749..58d447c 100644
--- a/snmp/security/usm/priv/openssl/des.py
+++ b/snmp/security/usm/priv/openssl/des.py
@@ -42,6 +42,9 @@ class DesCbc(PrivProtocol):
             errmsg = "DES ciphertext must be a multiple of {} in length"
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
 
+        if len(salt) != self.BLOCKLEN:
+            raise DecryptionError("Invalid salt")
+
         iv = self.computeIV(salt)
 
         # OpenSSL withholds the final block, in case it contains padding
diff --git a/snmp/security/usm/priv/pycryptodome/des.py b/snmp/security/usm/priv/pycryptodome/des.py
index fcd7e53..fb609e4 100644
--- a/snmp/security/usm/priv/pycryptodome/des.py
+++ b/snmp/security/usm/priv/pycryptodome/des.py
@@ -45,6 +45,9 @@ class DesCbc(PrivProtocol):
             errmsg = "DES ciphertext must be a multiple of {} in length"
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
 
+        if len(salt) != self.BLOCKLEN:
+            raise DecryptionError("Invalid salt")
+
         return self.newCipher(self.computeIV(salt)).decrypt(self.pad(data))
 
     def encrypt(self,
-- 
2.43.0


From 007a43b227d9d6597ab6cfdbb1c2e5cacb4848fc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 07/12] fix: name the unsupported domain in the error raised by
 Engine.Manager

---
 snmp/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/engine.py b/snmp/engine.py
index b47301f..41ff0e0 100644
--- a/snmp/engine.py
+++ b/snmp/engine.py
@@ -189,7 +189,7 @@ class Engine:
         try:
             transportClass = self.TRANSPORTS[domain]
         except KeyError as err:
-            errmsg = f"Unsupported transport domain: {transportClass.DOMAIN}"
+            errmsg = f"Unsupported transport domain: {domain}"
             raise ValueError(errmsg) from err
 
         address = transportClass.normalizeAddress(
-- 
2.43.0


From b7878e7f0835799c0729e77fb26f53d6849106e5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 08/12] fix: never wait for a response past the expiration of
 the request

---
 snmp/manager/v1.py  | 3 +++
 snmp/manager/v2c.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 20a7a36..0058067 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -103,6 +103,9 @@ class Request(RequestHandle[Message]):
         pdu: Optional[ResponsePDU] = None
         while not self.expired:
             timeout = self.manager.refresh()
+            if timeout is None:
+                timeout = max(self.expiration - time.time(), 0.0)
+
             if self.event.wait(timeout=timeout):
                 assert self.response is not None
                 pdu = cast(ResponsePDU, self.response.pdu)
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index a443f28..c010619 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -103,6 +103,9 @@ class Request(RequestHandle[Message]):
         pdu: Optional[ResponsePDU] = None
         while not self.expired:
             timeout = self.manager.refresh()
+            if timeout is None:
+                timeout = max(self.expiration - time.time(), 0.0)
+
             if self.event.wait(timeout=timeout):
                 assert self.response is not None
                 pdu = cast(ResponsePDU, self.response.pdu)
-- 
2.43.0


From 33297c079714fb58233b2b75cbfcfa31db21e78f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 09/12] fix: reject negative engineBoots and engineTime in USM
 parameters

---
 snmp/security/usm/parameters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/snmp/security/usm/parameters.py b/snmp/security/usm/parameters.py
index 7b7f7d7..3ba4468 100644
--- a/snmp/security/usm/parameters.py
+++ b/snmp/security/usm/parameters.py
@@ -149,6 +149,11 @@ class UsmSecurityParameters(Sequence):
 
         salt = OctetString.decode(ptr)
 
+        if engineBoots.value < 0 or engineTime.value < 0:
+            errmsg = "msgAuthoritativeEngineBoots and" \
+                " msgAuthoritativeEngineTime may not be negative"
+            raise ParseError(errmsg)
+
         return cls(
             engineID.data,
             engineBoots.value,
-- 
2.43.0


From 7ad62878b1458ed1335be3224fb60ce09388c5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:41 +0000
Subject: [PATCH 10/12] fix: do not retransmit twice when a refresh happens
 exactly on time

---
 snmp/manager/v1.py  | 2 +-
 snmp/manager/v2c.py | 2 +-
 snmp/manager/v3.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 0058067..dc16a9c 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -87,7 +87,7 @@ class Request(RequestHandle[Message]):
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index c010619..528cfd3 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -87,7 +87,7 @@ class Request(RequestHandle[Message]):
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 0fd666b..e03c03b 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -397,7 +397,7 @@ class Request:
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
-- 
2.43.0


From b60d67bcb260feefe9be732120ffffbe4efced55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:44 +0000
Subject: [PATCH 11/12] fix: report a response that arrived before the request
 was waited for

---
 snmp/manager/v1.py  | 6 ++++--
 snmp/manager/v2c.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index dc16a9c..1884acf 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -107,10 +107,12 @@ class Request(RequestHandle[Message]):
                 timeout = max(self.expiration - time.time(), 0.0)
 
             if self.event.wait(timeout=timeout):
-                assert self.response is not None
-                pdu = cast(ResponsePDU, self.response.pdu)
                 break
 
+        if self.event.is_set():
+            assert self.response is not None
+            pdu = cast(ResponsePDU, self.response.pdu)
+
         self.close()
         if pdu is None:
             raise Timeout()
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 528cfd3..9865cee 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -107,10 +107,12 @@ class Request(RequestHandle[Message]):
                 timeout = max(self.expiration - time.time(), 0.0)
 
             if self.event.wait(timeout=timeout):
-                assert self.response is not None
-                pdu = cast(ResponsePDU, self.response.pdu)
                 break
 
+        if self.event.is_set():
+            assert self.response is not None
+            pdu = cast(ResponsePDU, self.response.pdu)
+
         self.close()
         if pdu is None:
             raise Timeout()
-- 
2.43.0


From 04ca3e447d8a7e46f4de3364982080a408910958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:47 +0000
Subject: [PATCH 12/12] fix: schedule a request only once its first refresh
 time is known

---
 snmp/manager/v1.py  | 2 +-
 snmp/manager/v2c.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 1884acf..9f2a8f9 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -189,8 +189,8 @@ class SNMPv1Manager(Generic[T]):
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
         with self.lock:
-            heapq.heappush(self.requests, reference)
             request.send()
+            heapq.heappush(self.requests, reference)
 
         if wait:
             return request.wait()
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 9865cee..ab72c8a 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -189,8 +189,8 @@ class SNMPv2cManager(Generic[T]):
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
         with self.lock:
-            heapq.heappush(self.requests, reference)
             request.send()
+            heapq.heappush(self.requests, reference)
 
         if wait:
             return request.wait()
-- 
2.43.0

