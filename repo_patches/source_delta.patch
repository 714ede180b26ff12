From bb33531646faa9145b07ea9953981f16c1557cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 01/30] fix: add the second arc of an OID instead of OR-ing it

first * 40 | second loses bits for arcs that share bits with the product
(e.g. 1.8 was encoded as 1.0, 2.16 as 2.0).
---
 snmp/asn1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index aeae5cc..573a89c 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -458,7 +458,7 @@ class OBJECT_IDENTIFIER(Primitive):
             second = 0
 
         encoding = bytearray()
-        self.serializeSubIdentifier(encoding, first * 40 | second)
+        self.serializeSubIdentifier(encoding, first * 40 + second)
         for subidentifier in self.subidentifiers[2:]:
             self.serializeSubIdentifier(encoding, subidentifier)
 
-- 
2.43.0


From a4e4bef01799380ce272ee16ff8ea32e07f2720e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 02/30] fix: reject an OID whose last sub-identifier is
 unterminated

The check looked at the accumulated value, so a trailing 0x80 octet, whose
value is zero, was silently dropped.
---
 snmp/asn1.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index 573a89c..af28e73 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -417,15 +417,17 @@ class OBJECT_IDENTIFIER(Primitive):
             raise ParseError(f"Empty {typename(cls)}") from err
 
         value = 0
+        incomplete = False
         for byte in stream:
             value |= byte & 0x7f
-            if byte & 0x80:
+            incomplete = bool(byte & 0x80)
+            if incomplete:
                 value <<= 7
             else:
                 oid.append(value)
                 value = 0
 
-        if value:
+        if incomplete:
             raise ParseError(f"{typename(cls)} ended unexpectedly")
 
         return cls.construct(*oid)
-- 
2.43.0


From 5e6a909d7b22c3b601bd9054e6c3ae110b96a189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 03/30] fix: reject negative engineBoots and engineTime in USM
 parameters

RFC 3414 limits both to 0..2147483647. A negative value from an
unauthenticated message was stored as a time hint, after which every
encrypted request to that engine failed with an OverflowError.
---
 snmp/security/usm/parameters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/snmp/security/usm/parameters.py b/snmp/security/usm/parameters.py
index 7b7f7d7..9cedd83 100644
--- a/snmp/security/usm/parameters.py
+++ b/snmp/security/usm/parameters.py
@@ -149,6 +149,11 @@ class UsmSecurityParameters(Sequence):
 
         salt = OctetString.decode(ptr)
 
+        if engineBoots.value < 0:
+            raise ParseError("engineBoots may not be less than 0")
+        elif engineTime.value < 0:
+            raise ParseError("engineTime may not be less than 0")
+
         return cls(
             engineID.data,
             engineBoots.value,
-- 
2.43.0


From bf271f4157fd129d9779f7c59bff05be14c84c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 04/30] fix: report an incomplete OID index field as
 IndexDecodeError

StopIteration raised inside the generator expression surfaced as a
RuntimeError.
---
 snmp/asn1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index af28e73..0fedc22 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -330,11 +330,12 @@ class OBJECT_IDENTIFIER(Primitive):
         nums: Iterator[int],
         implied: bool = False,
     ) -> TOID:
+        subidentifiers: Iterable[int]
         if implied:
             subidentifiers = nums
         else:
             length = next(nums)
-            subidentifiers = (next(nums) for _ in range(length))
+            subidentifiers = [next(nums) for _ in range(length)]
 
         try:
             return cls.construct(*subidentifiers)
-- 
2.43.0


From b9b614c31ce96fcc6a431ef74ce1508fd52452fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 05/30] fix: report a string index sub-identifier above 255 as
 IndexDecodeError

bytes() raised a bare ValueError.
---
 snmp/asn1.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index 0fedc22..7b8c609 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -185,10 +185,16 @@ class OCTET_STRING(Primitive):
         implied: bool = False,
     ) -> TOCTET_STRING:
         if implied:
-            data = bytes(nums)
+            octets = list(nums)
         else:
             length = next(nums)
-            data = bytes([next(nums) for _ in range(length)])
+            octets = [next(nums) for _ in range(length)]
+
+        try:
+            data = bytes(octets)
+        except ValueError as err:
+            errmsg = f"Invalid sub-identifier for {typename(cls)} index"
+            raise OBJECT_IDENTIFIER.IndexDecodeError(errmsg) from err
 
         try:
             return cls.construct(data)
-- 
2.43.0


From 76855e21e763153dc9d77c59ecfd159769bca350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 06/30] fix: decode an IpAddress index as four sub-identifiers

asOID() encodes the address without a length, as RFC 2578 requires, but
the decoder expected one, so decodeIndex() could not read what withIndex()
wrote.
---
 snmp/smi.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/snmp/smi.py b/snmp/smi.py
index a4257f5..381dcd1 100644
--- a/snmp/smi.py
+++ b/snmp/smi.py
@@ -121,6 +121,15 @@ class IpAddress(OCTET_STRING):
     def asOID(self, implied: bool = False) -> Iterable[int]:
         return super().asOID(implied=True)
 
+    @classmethod
+    def fromOID(
+        cls,
+        nums: Iterator[int],
+        implied: bool = False,
+    ) -> "IpAddress":
+        octets = [next(nums) for _ in range(4)]
+        return super().fromOID(iter(octets), implied=True)
+
     @classmethod
     def construct(cls, data: Asn1Data) -> "IpAddress":
         if isinstance(data, subbytes):
-- 
2.43.0


From fd857400f76fde4c1c807fde47631c0be2e6ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 07/30] fix: make a subbytes with start beyond stop an empty
 sequence

Its length was negative, so len() raised a ValueError.
---
 snmp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/utils.py b/snmp/utils.py
index 8e93969..e9f4a6d 100644
--- a/snmp/utils.py
+++ b/snmp/utils.py
@@ -130,7 +130,7 @@ class subbytes:
         newstop  = base.stop  if stop  is None else base.translate(stop,  True)
 
         self._start = newstart
-        self._stop  = newstop
+        self._stop  = max(newstart, newstop)
 
     @property
     def data(self) -> bytes:
-- 
2.43.0


From 9d6c9192c10eb506c624b00f814a3df5cdd8fc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 08/30] fix: support every slice of a subbytes

A missing bound was always replaced with the ends of the sequence in
ascending order, which is wrong for a negative step, and clamped bounds
could reach bytes outside of the sequence.
---
 snmp/utils.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/snmp/utils.py b/snmp/utils.py
index e9f4a6d..d994327 100644
--- a/snmp/utils.py
+++ b/snmp/utils.py
@@ -174,18 +174,10 @@ class subbytes:
 
     def __getitem__(self, key: Union[int, slice]) -> Union[int, bytes]:
         """Retrieve an individual byte or copy a sub-sequence."""
-        if isinstance(key, int):
-            key = self.translate(key)
-        elif isinstance(key, slice):
-            start, stop = key.start, key.stop
-
-            key = slice(
-                self.start if start is None else self.translate(start, True),
-                self.stop  if stop  is None else self.translate(stop, True),
-                key.step
-            )
-
-        return self.data[key]
+        if isinstance(key, slice):
+            return self.data[self.start:self.stop][key]
+
+        return self.data[self.translate(key)]
 
     def __iter__(self) -> Iterator[int]:
         """Produce an iterator for this sequence."""
-- 
2.43.0


From 719c5968382d1063de21c6e1932ef56fa6769006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 09/30] fix: do not append a garbage block when decrypting DES
 with pycryptodome

---
 snmp/security/usm/priv/pycryptodome/des.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/security/usm/priv/pycryptodome/des.py b/snmp/security/usm/priv/pycryptodome/des.py
index fcd7e53..0442845 100644
--- a/snmp/security/usm/priv/pycryptodome/des.py
+++ b/snmp/security/usm/priv/pycryptodome/des.py
@@ -45,7 +45,7 @@ class DesCbc(PrivProtocol):
             errmsg = "DES ciphertext must be a multiple of {} in length"
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
 
-        return self.newCipher(self.computeIV(salt)).decrypt(self.pad(data))
+        return self.newCipher(self.computeIV(salt)).decrypt(data)
 
     def encrypt(self,
         data: bytes,
-- 
2.43.0


From 7c4dadb266d354b5ef3422747ba475f608e61750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 10/30] fix: reject a DES salt of the wrong length with
 DecryptionError

---
 snmp/security/usm/priv/openssl/des.py      | 2 ++
 snmp/security/usm/priv/pycryptodome/des.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/snmp/security/usm/priv/openssl/des.py b/snmp/security/usm/priv/openssl/des.py
index 902df86..b2f8f22 100644
--- a/snmp/security/usm/priv/openssl/des.py
+++ b/snmp/security/usm/priv/openssl/des.py
@@ -41,6 +41,8 @@ class DesCbc(PrivProtocol):
         if len(data) % self.BLOCKLEN:
             errmsg = "DES ciphertext must be a multiple of {} in length"
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
+        elif len(salt) != len(self.preIV):
+            raise DecryptionError("Invalid salt")
 
         iv = self.computeIV(salt)
         return Decryptor(self.CIPHER).decrypt(data, self.key, iv)
diff --git a/snmp/security/usm/priv/pycryptodome/des.py b/snmp/security/usm/priv/pycryptodome/des.py
index 0442845..a4fddde 100644
--- a/snmp/security/usm/priv/pycryptodome/des.py
+++ b/snmp/security/usm/priv/pycryptodome/des.py
@@ -44,6 +44,8 @@ class DesCbc(PrivProtocol):
         if len(data) % self.BLOCKLEN:
             errmsg = "DES ciphertext must be a multiple of {} in length"
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
+        elif len(salt) != len(self.preIV):
+            raise DecryptionError("Invalid salt")
 
         return self.newCipher(self.computeIV(salt)).decrypt(data)
 
-- 
2.43.0


From 41f5ee1648dcf63fc2c686ee00888790b639842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 11/30] fix: return exactly the bytes OpenSSL produced, without
 its padding

---
 snmp/cffi/openssl.py                       | 1 +
 snmp/openssl.pyi                           | 6 ++++++
 snmp/security/usm/priv/openssl/__init__.py | 5 ++++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/snmp/cffi/openssl.py b/snmp/cffi/openssl.py
index 75c441e..dd755db 100644
--- a/snmp/cffi/openssl.py
+++ b/snmp/cffi/openssl.py
@@ -14,6 +14,7 @@ typedef struct evp_cipher_ctx_st EVP_CIPHER_CTX;
 
 EVP_CIPHER_CTX *EVP_CIPHER_CTX_new(void);
 void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c);
+int EVP_CIPHER_CTX_set_padding(EVP_CIPHER_CTX *c, int pad);
 
 int EVP_EncryptInit(EVP_CIPHER_CTX *ctx, const EVP_CIPHER *type,
                     const unsigned char *key, const unsigned char *iv);
diff --git a/snmp/openssl.pyi b/snmp/openssl.pyi
index cddda38..78bf4de 100644
--- a/snmp/openssl.pyi
+++ b/snmp/openssl.pyi
@@ -30,6 +30,12 @@ class OpenSSL_LIB:
     def EVP_CIPHER_CTX_free(self, ctx: Pointer[EVP_CIPHER_CTX]) -> None:
         ...
 
+    def EVP_CIPHER_CTX_set_padding(self,
+        ctx: Pointer[EVP_CIPHER_CTX],
+        pad: int,
+    ) -> int:
+        ...
+
     def EVP_DecryptInit(self,
         ctx: Pointer[EVP_CIPHER_CTX],
         type: Pointer[EVP_CIPHER],
diff --git a/snmp/security/usm/priv/openssl/__init__.py b/snmp/security/usm/priv/openssl/__init__.py
index c80d042..81e6947 100644
--- a/snmp/security/usm/priv/openssl/__init__.py
+++ b/snmp/security/usm/priv/openssl/__init__.py
@@ -57,6 +57,9 @@ class Envelope:
             if not self.init(ctx, self.cipher(), key, iv):
                 raise Exception("Failed to initialize cipher context")
 
+            # The callers pad the data themselves, as SNMP requires
+            lib.EVP_CIPHER_CTX_set_padding(ctx, 0)
+
             inl = len(data)
             outl = ffi.new("int*")
             output = self.allocateOutputBuffer(len(data), self.cipher.BLOCKLEN)
@@ -64,7 +67,7 @@ class Envelope:
             if not self.update(ctx, output, outl, data, inl):
                 raise Exception("Failed to update cipher context")
 
-            return bytes(output)
+            return bytes(output)[:outl[0]]
 
 class Decryptor(Envelope):
     ENCRYPT = False
-- 
2.43.0


From 2b7360b5e5c5e78878ca1dad72dfeb0b8f3e845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 12/30] fix: keep the estimated engineTime within its 31-bit
 range

---
 snmp/security/usm/timekeeper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/snmp/security/usm/timekeeper.py b/snmp/security/usm/timekeeper.py
index 56d9c07..7d6886a 100644
--- a/snmp/security/usm/timekeeper.py
+++ b/snmp/security/usm/timekeeper.py
@@ -4,6 +4,7 @@ from snmp.typing import *
 
 class EngineTime:
     MAX_ENGINE_BOOTS: ClassVar[int] = (1 << 31) - 1
+    MAX_ENGINE_TIME: ClassVar[int] = (1 << 31) - 1
 
     def __init__(self,
         engineBoots: int,
@@ -28,7 +29,8 @@ class EngineTime:
         return self.snmpEngineBoots < self.MAX_ENGINE_BOOTS
 
     def snmpEngineTime(self, timestamp: float) -> int:
-        return int(timestamp - self.latestBootTime)
+        engineTime = int(timestamp - self.latestBootTime)
+        return max(0, min(engineTime, self.MAX_ENGINE_TIME))
 
     def setEngineTime(self, engineTime: int, timestamp: float) -> None:
         self.latestBootTime = timestamp - engineTime
-- 
2.43.0


From 7cd3198ce9efb0644530037e7aa608ee395a6326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 13/30] fix: do not leave an empty namespace behind when
 addUser fails

---
 snmp/security/usm/users.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/security/usm/users.py b/snmp/security/usm/users.py
index 1302071..3fe46d5 100644
--- a/snmp/security/usm/users.py
+++ b/snmp/security/usm/users.py
@@ -141,7 +141,6 @@ class UserRegistry:
             config = self.namespaces[namespace]
         except KeyError:
             config = NamespaceConfig()
-            self.namespaces[namespace] = config
 
         credentials = Credentials(
             authProtocol,
@@ -152,6 +151,7 @@ class UserRegistry:
         )
 
         config.addUser(userName, credentials, defaultSecurityLevel, default)
+        self.namespaces[namespace] = config
 
         for engineID, engine in self.engines.items():
             if engine.namespace == namespace:
-- 
2.43.0


From 945cdfc404533905cbfc53ebf1cece6fa332aa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 14/30] fix: wait() of a v1/v2c request may be late, be
 repeated, and never blocks past the timeout

A second wait() failed an assertion, a late one dropped a response that had
arrived in time, and one whose timeout passed between the check and the
refresh blocked forever.
---
 snmp/manager/v1.py  | 26 ++++++++++++++------------
 snmp/manager/v2c.py | 26 ++++++++++++++------------
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 20a7a36..a041918 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -38,8 +38,7 @@ class Request(RequestHandle[Message]):
         self.period = refreshPeriod
 
     def __del__(self) -> None:
-        if self.callback is not None:
-            self.close()
+        self.close()
 
     @property
     def expired(self) -> bool:
@@ -54,9 +53,9 @@ class Request(RequestHandle[Message]):
         self._nextRefresh = min(self.expiration, value)
 
     def close(self) -> None:
-        assert self.callback is not None
-        self.callback(self.pdu.requestID)
-        self.callback = None
+        if self.callback is not None:
+            self.callback(self.pdu.requestID)
+            self.callback = None
 
     def addCallback(self,
         callback: Callable[[int], None],
@@ -100,18 +99,21 @@ class Request(RequestHandle[Message]):
         self.reallySend()
 
     def wait(self) -> VarBindList:
-        pdu: Optional[ResponsePDU] = None
-        while not self.expired:
+        while not self.event.is_set() and not self.expired:
             timeout = self.manager.refresh()
-            if self.event.wait(timeout=timeout):
-                assert self.response is not None
-                pdu = cast(ResponsePDU, self.response.pdu)
-                break
+            remaining = max(0.0, self.expiration - time.time())
+
+            # The manager might not have this request in its queue anymore
+            if timeout is None or timeout > remaining:
+                timeout = remaining
+
+            self.event.wait(timeout=timeout)
 
         self.close()
-        if pdu is None:
+        if self.response is None:
             raise Timeout()
         else:
+            pdu = cast(ResponsePDU, self.response.pdu)
             if pdu.errorStatus:
                 raise ErrorResponse(pdu.errorStatus, pdu.errorIndex, self.pdu)
             else:
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index a443f28..364e4ee 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -38,8 +38,7 @@ class Request(RequestHandle[Message]):
         self.period = refreshPeriod
 
     def __del__(self) -> None:
-        if self.callback is not None:
-            self.close()
+        self.close()
 
     @property
     def expired(self) -> bool:
@@ -54,9 +53,9 @@ class Request(RequestHandle[Message]):
         self._nextRefresh = min(self.expiration, value)
 
     def close(self) -> None:
-        assert self.callback is not None
-        self.callback(self.pdu.requestID)
-        self.callback = None
+        if self.callback is not None:
+            self.callback(self.pdu.requestID)
+            self.callback = None
 
     def addCallback(self,
         callback: Callable[[int], None],
@@ -100,18 +99,21 @@ class Request(RequestHandle[Message]):
         self.reallySend()
 
     def wait(self) -> VarBindList:
-        pdu: Optional[ResponsePDU] = None
-        while not self.expired:
+        while not self.event.is_set() and not self.expired:
             timeout = self.manager.refresh()
-            if self.event.wait(timeout=timeout):
-                assert self.response is not None
-                pdu = cast(ResponsePDU, self.response.pdu)
-                break
+            remaining = max(0.0, self.expiration - time.time())
+
+            # The manager might not have this request in its queue anymore
+            if timeout is None or timeout > remaining:
+                timeout = remaining
+
+            self.event.wait(timeout=timeout)
 
         self.close()
-        if pdu is None:
+        if self.response is None:
             raise Timeout()
         else:
+            pdu = cast(ResponsePDU, self.response.pdu)
             if pdu.errorStatus:
                 raise ErrorResponse(pdu.errorStatus, pdu.errorIndex, self.pdu)
             else:
-- 
2.43.0


From d4bf0624cc3dc0af1bf032ca1b6a7df2f46922ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 15/30] fix: do not retransmit again and again while the clock
 reads exactly nextRefresh

ceil(0) periods left nextRefresh unchanged, so the request stayed due.
---
 snmp/manager/v1.py  | 2 +-
 snmp/manager/v2c.py | 2 +-
 snmp/manager/v3.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index a041918..891185d 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -86,7 +86,7 @@ class Request(RequestHandle[Message]):
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 364e4ee..049abd8 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -86,7 +86,7 @@ class Request(RequestHandle[Message]):
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 0fd666b..e03c03b 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -397,7 +397,7 @@ class Request:
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
-- 
2.43.0


From 159303ae35af747757c99739ae12fad246552147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 16/30] fix: never block a v3 wait() past the timeout of its
 own request

---
 snmp/manager/v3.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index e03c03b..a983a97 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -412,20 +412,21 @@ class Request:
     def wait(self) -> VarBindList:
         try:
             pdu = None
-            while not self.expired:
+            while not self.event.is_set() and not self.expired:
                 timeout = self.manager.refresh()
 
+                # The next refresh of another request might be further away
+                remaining = max(0.0, self.expiration - time.time())
+                timeout = min(timeout, remaining)
+
                 try:
-                    ready = self.event.wait(timeout=timeout)
+                    self.event.wait(timeout=timeout)
                 except KeyboardInterrupt as interrupt:
                     if self.exception is not None:
                         raise self.exception from interrupt
                     else:
                         raise
 
-                if ready:
-                    break
-
             if self.event.is_set() and self.response is not None:
                 assert self.response.scopedPDU is not None
                 pdu = cast(ResponsePDU, self.response.scopedPDU.pdu)
-- 
2.43.0


From ed0b1fc2bbba0654a297790ae3ba26ed84030bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 17/30] fix: do not transmit a v3 request that has been
 answered or has expired

A request that was held back, or that a report arrives for, was sent even
when its time had run out or its response was already there.
---
 snmp/manager/v3.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index a983a97..f60aebd 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -324,6 +324,10 @@ class Request:
     def expired(self) -> bool:
         return self.expiration <= time.time()
 
+    @property
+    def finished(self) -> bool:
+        return self.event.is_set() or self.expired
+
     @property
     def nextRefresh(self) -> float:
         return self._nextRefresh
@@ -534,7 +538,7 @@ class SNMPv3UsmManager(Generic[T]):
                 reference = unsent.pop()
                 request = reference()
 
-                if request is not None:
+                if request is not None and not request.finished:
                     if self.state.onRequest(request.securityLevel.auth):
                         with self.activeLock:
                             request.send(self.engineID)
@@ -591,9 +595,10 @@ class SNMPv3UsmManager(Generic[T]):
         with self.lock:
             sendAll = self.state.onReport(engineID)
 
-            with self.activeLock:
-                request.send(engineID)
-                heapq.heapify(self.active)
+            if not request.finished:
+                with self.activeLock:
+                    request.send(engineID)
+                    heapq.heapify(self.active)
 
             if sendAll:
                 self.updateState()
@@ -601,7 +606,7 @@ class SNMPv3UsmManager(Generic[T]):
                     reference = self.unsent.pop()
                     req = reference()
 
-                    if req is not None:
+                    if req is not None and not req.finished:
                         with self.activeLock:
                             req.send(engineID)
                             heapq.heappush(self.active, reference)
-- 
2.43.0


From d9a950cda3077b95eec3309c31053e708990ec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 18/30] fix: queue a v1/v2c request under its actual refresh
 time

It was pushed with its expiration as the key, which then changed in place, so
it could stay buried under requests with later refresh times.
---
 snmp/manager/v1.py  | 3 ++-
 snmp/manager/v2c.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 891185d..258dd07 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -186,8 +186,9 @@ class SNMPv1Manager(Generic[T]):
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
         with self.lock:
-            heapq.heappush(self.requests, reference)
+            # This updates request.nextRefresh, which determines the position
             request.send()
+            heapq.heappush(self.requests, reference)
 
         if wait:
             return request.wait()
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 049abd8..cffb29b 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -186,8 +186,9 @@ class SNMPv2cManager(Generic[T]):
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
         with self.lock:
-            heapq.heappush(self.requests, reference)
+            # This updates request.nextRefresh, which determines the position
             request.send()
+            heapq.heappush(self.requests, reference)
 
         if wait:
             return request.wait()
-- 
2.43.0


From 1545d267d296a969035c7c7de53949b185950a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 19/30] fix: retransmit on time when a v3 request is first sent
 while being waited on

---
 snmp/manager/v3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index f60aebd..2e5687a 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -419,9 +419,10 @@ class Request:
             while not self.event.is_set() and not self.expired:
                 timeout = self.manager.refresh()
 
-                # The next refresh of another request might be further away
+                # The next refresh of another request might be further away,
+                # and this request might be sent in the meantime
                 remaining = max(0.0, self.expiration - time.time())
-                timeout = min(timeout, remaining)
+                timeout = min(timeout, remaining, self.period)
 
                 try:
                     self.event.wait(timeout=timeout)
-- 
2.43.0


From eec964aa4d9c900585b21c2b7c9b6a2c009b914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 20/30] fix: a v3 request that cannot be sent does not disturb
 the others

The error was raised in the wait() of another request, or lost the requests
that were still to be sent together with it.
---
 snmp/manager/v3.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 2e5687a..6c41ead 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -293,7 +293,7 @@ class Request:
         self.messages: Set[RequestMessage] = set()
 
         self.event = threading.Event()
-        self.exception: Optional[UnhandledReport] = None
+        self.exception: Optional[Exception] = None
         self.response: Optional[SNMPv3Message] = None
 
         self.expiration = now + timeout
@@ -351,7 +351,7 @@ class Request:
         if engineID != self.engineID:
             self.manager.onReport(self, engineID)
 
-    def processException(self, exception: UnhandledReport, auth: bool) -> None:
+    def processException(self, exception: Exception, auth: bool) -> None:
         if auth:
             if not self.event.is_set():
                 self.exception = exception
@@ -527,6 +527,20 @@ class SNMPv3UsmManager(Generic[T]):
     def newGenerator(self) -> NumberGenerator:
         return NumberGenerator(32)
 
+    # Use this to send a request from anywhere but the call that creates it. A
+    # failure concerns no one but the caller that waits for that request, and
+    # becomes final if the request cannot be sent at its next refresh either.
+    def trySend(self,
+        request: Request,
+        engineID: Optional[bytes] = None,
+    ) -> None:
+        try:
+            request.send(engineID)
+        except DiscoveryError:
+            raise
+        except Exception as err:
+            request.processException(err, False)
+
     def poke(self) -> bool:
         active = False
         with self.lock:
@@ -542,7 +556,7 @@ class SNMPv3UsmManager(Generic[T]):
                 if request is not None and not request.finished:
                     if self.state.onRequest(request.securityLevel.auth):
                         with self.activeLock:
-                            request.send(self.engineID)
+                            self.trySend(request, self.engineID)
                             heapq.heappush(self.active, reference)
                             active = True
 
@@ -563,7 +577,11 @@ class SNMPv3UsmManager(Generic[T]):
                     if request is None:
                         wait = None
                     else:
-                        wait = request.refresh()
+                        try:
+                            wait = request.refresh()
+                        except Exception as err:
+                            request.processException(err, True)
+                            wait = None
 
                     if wait is None:
                         heapq.heappop(self.active)
@@ -598,7 +616,7 @@ class SNMPv3UsmManager(Generic[T]):
 
             if not request.finished:
                 with self.activeLock:
-                    request.send(engineID)
+                    self.trySend(request, engineID)
                     heapq.heapify(self.active)
 
             if sendAll:
@@ -609,7 +627,7 @@ class SNMPv3UsmManager(Generic[T]):
 
                     if req is not None and not req.finished:
                         with self.activeLock:
-                            req.send(engineID)
+                            self.trySend(req, engineID)
                             heapq.heappush(self.active, reference)
 
     def processResponse(self,
-- 
2.43.0


From e2915aca3d91c50c6acd3f18683a7f5953634155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 21/30] fix: send the held back v3 requests once a response
 synchronizes the manager

They waited until no other request was active, possibly past their timeout.
---
 snmp/manager/v3.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 6c41ead..8b10d24 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -610,6 +610,17 @@ class SNMPv3UsmManager(Generic[T]):
     def unregisterRemoteEngine(self, engineID: bytes) -> None:
         self.usm.unregisterRemoteEngine(engineID, self.namespace)
 
+    # Always acquire self.lock right before calling this method
+    def sendUnsent(self, engineID: bytes) -> None:
+        while self.unsent:
+            reference = self.unsent.pop()
+            request = reference()
+
+            if request is not None and not request.finished:
+                with self.activeLock:
+                    self.trySend(request, engineID)
+                    heapq.heappush(self.active, reference)
+
     def onReport(self, request: Request, engineID: bytes) -> None:
         with self.lock:
             sendAll = self.state.onReport(engineID)
@@ -621,14 +632,7 @@ class SNMPv3UsmManager(Generic[T]):
 
             if sendAll:
                 self.updateState()
-                while self.unsent:
-                    reference = self.unsent.pop()
-                    req = reference()
-
-                    if req is not None and not req.finished:
-                        with self.activeLock:
-                            self.trySend(req, engineID)
-                            heapq.heappush(self.active, reference)
+                self.sendUnsent(engineID)
 
     def processResponse(self,
         request: Request,
@@ -641,6 +645,7 @@ class SNMPv3UsmManager(Generic[T]):
             if self.state.onResponse(engineID, auth):
                 self.engineID = engineID
                 self.updateState()
+                self.sendUnsent(engineID)
 
             return True
 
-- 
2.43.0


From 460595e7543812cb259b04f4ebe810d679e348b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 22/30] fix: never take the response to a discovery message for
 the response to a request

Discovery messages are not authenticated, so anyone could complete an
authenticated request with made up data by answering its discovery message
after the engine ID had been discovered.
---
 snmp/manager/v3.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 8b10d24..f8ee819 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -224,8 +224,13 @@ class RequestMessage(RequestHandle[SNMPv3Message]):
         usmStatsDecryptionErrors:       DecryptionErrorReport,
     }
 
-    def __init__(self, request: "Request", synchronized: SharedBool) -> None:
+    def __init__(self,
+        request: "Request",
+        synchronized: SharedBool,
+        discovery: bool = False,
+    ) -> None:
         self.request = weakref.proxy(request)
+        self.discovery = discovery
         self.messageID: Optional[int] = None
         self.callback: Optional[Callable[[int], None]] = None
 
@@ -262,6 +267,9 @@ class RequestMessage(RequestHandle[SNMPv3Message]):
 
                 auth = response.header.flags.authFlag
                 self.request.processException(exception, auth)
+        elif self.discovery:
+            errmsg = "Received a ResponsePDU in response to a discovery message"
+            raise DiscoveryError(errmsg)
         else:
             self.request.processResponse(cast(ResponsePDU, response))
 
@@ -374,8 +382,11 @@ class Request:
         user = self.userName
         securityLevel = self.securityLevel
 
+        discovery = False
+
         if engineID is None:
             if self.engineID is None:
+                discovery = True
                 pdu = GetRequestPDU()
                 engineID = b""
                 user = b""
@@ -385,7 +396,7 @@ class Request:
         else:
             self.engineID = engineID
 
-        message = RequestMessage(self, self.synchronized)
+        message = RequestMessage(self, self.synchronized, discovery)
         self.messages.add(message)
         self.manager.sendPdu(pdu, message, engineID, user, securityLevel)
 
-- 
2.43.0


From fa722b923babf873dc18ed25d9af43bcb25515df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 23/30] fix: keep a v3 request's engines registered until it is
 closed

A forged unauthenticated Report changed the engine of a request and thereby
dropped the registration that the genuine response, already in flight, needs.
---
 snmp/manager/v3.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index f8ee819..d3bc968 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -293,6 +293,9 @@ class Request:
         self._engineID: Optional[bytes] = None
         self.synchronized = SharedBool(False)
 
+        # Every engine that might still respond to one of self.messages
+        self.engineIDs: Set[bytes] = set()
+
         self.manager = manager
         self.pdu = pdu
         self.securityLevel = securityLevel
@@ -320,11 +323,9 @@ class Request:
         if engineID == self._engineID:
             return
 
-        if engineID is not None:
+        if engineID is not None and engineID not in self.engineIDs:
             self.manager.registerRemoteEngine(engineID)
-
-        if self._engineID is not None:
-            self.manager.unregisterRemoteEngine(self._engineID)
+            self.engineIDs.add(engineID)
 
         self._engineID = engineID
 
@@ -349,6 +350,8 @@ class Request:
             self.messages.pop().close()
 
         self.engineID = None
+        while self.engineIDs:
+            self.manager.unregisterRemoteEngine(self.engineIDs.pop())
 
     def processNotInTimeWindow(self, engineID: bytes) -> None:
         self.manager.onReport(self, engineID)
-- 
2.43.0


From cd361c7deec06db2311fe7a25f2f6438589ebad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 24/30] fix: report an unknown user whose name is not UTF-8

The exception's message could not be made, so the Report was dropped.
---
 snmp/manager/v3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index d3bc968..40723de 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -55,14 +55,14 @@ class UnsupportedSecurityLevelReport(UsmStatsReport):
 class UnknownUserNameReport(UsmStatsReport):
     def __init__(self, message: SNMPv3Message, varbind: VarBind) -> None:
         assert message.securityName is not None
-        userName = message.securityName.decode()
+        userName = message.securityName.decode(errors="backslashreplace")
         errmsg = f"Remote Engine does not recognize user \"{userName}\""
         super().__init__(errmsg, varbind)
 
 class WrongDigestReport(UsmStatsReport):
     def __init__(self, message: SNMPv3Message, varbind: VarBind) -> None:
         assert message.securityName is not None
-        userName = message.securityName.decode()
+        userName = message.securityName.decode(errors="backslashreplace")
 
         errmsg = (
             "Remote Engine reported that your request failed authentication"
-- 
2.43.0


From f8833476269ed09de909db1e0c37a3ec71841986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 25/30] fix: raise ValueError for an unsupported transport
 domain

---
 snmp/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/engine.py b/snmp/engine.py
index b47301f..41ff0e0 100644
--- a/snmp/engine.py
+++ b/snmp/engine.py
@@ -189,7 +189,7 @@ class Engine:
         try:
             transportClass = self.TRANSPORTS[domain]
         except KeyError as err:
-            errmsg = f"Unsupported transport domain: {transportClass.DOMAIN}"
+            errmsg = f"Unsupported transport domain: {domain}"
             raise ValueError(errmsg) from err
 
         address = transportClass.normalizeAddress(
-- 
2.43.0


From 9fa31b625b36a5851c6ef2979d38d73ca82d6a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 26/30] fix: refuse a port number that is not an int

---
 snmp/transport/udp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/snmp/transport/udp.py b/snmp/transport/udp.py
index 7e5bac3..acdd10c 100644
--- a/snmp/transport/udp.py
+++ b/snmp/transport/udp.py
@@ -53,6 +53,9 @@ class UdpSocket(Transport[Tuple[str, int]]):
         except TypeError as err:
             raise TypeError(f"Address must be a str: {addr}") from err
 
+        if not isinstance(port, int):
+            raise TypeError(f"Port number must be an int: {port}")
+
         if port < 0 or port > 0xffff or (port == 0 and not permissive):
             errmsg = "Invalid UDP port number: {}"
             raise ValueError(errmsg.format(port))
-- 
2.43.0


From 811e165b8441459981faf8d36a3a59a2f165e4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 27/30] fix: keep listening when a socket turns out to have
 nothing to receive

Readiness may be spurious (see BUGS in select(2)), and on some platforms
recvfrom reports that an earlier datagram could not be delivered.
---
 snmp/transport/generic/udp.py | 7 ++++++-
 snmp/transport/posix/udp.py   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/snmp/transport/generic/udp.py b/snmp/transport/generic/udp.py
index 1441905..7d67757 100644
--- a/snmp/transport/generic/udp.py
+++ b/snmp/transport/generic/udp.py
@@ -52,7 +52,12 @@ class GenericUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
                         data, addr = self.r.recvfrom(len(STOPMSG))
                         done = addr == self.w.getsockname() and data == STOPMSG
                 else:
-                    addr, data = sock.receive(self.recvSize)
+                    try:
+                        addr, data = sock.receive(self.recvSize)
+                    except (BlockingIOError, ConnectionError):
+                        # There was no datagram after all
+                        continue
+
                     listener.hear(sock, addr, data)
 
     def stop(self) -> None:
diff --git a/snmp/transport/posix/udp.py b/snmp/transport/posix/udp.py
index 75fe31f..caec01a 100644
--- a/snmp/transport/posix/udp.py
+++ b/snmp/transport/posix/udp.py
@@ -34,7 +34,12 @@ class PosixUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
                         os.read(fd, 1)
                         done = True
                 else:
-                    addr, data = sock.receive(self.recvSize)
+                    try:
+                        addr, data = sock.receive(self.recvSize)
+                    except (BlockingIOError, ConnectionError):
+                        # There was no datagram after all
+                        continue
+
                     listener.hear(sock, addr, data)
 
     def stop(self) -> None:
-- 
2.43.0


From e5199ee0452d4d22aa279d5b37cd41018fd8e14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 28/30] fix: do not close the descriptors of another engine
 when shut down again

---
 snmp/transport/posix/udp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/snmp/transport/posix/udp.py b/snmp/transport/posix/udp.py
index caec01a..4611567 100644
--- a/snmp/transport/posix/udp.py
+++ b/snmp/transport/posix/udp.py
@@ -11,6 +11,7 @@ class PosixUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
     def __init__(self, recvSize: int = 1472) -> None:
         self.recvSize = recvSize
         self.r, self.w = os.pipe()
+        self.closed = False
         self.sockets: Dict[int, UdpSocket] = {}
 
     def register(self, sock: UdpSocket) -> None:    # type: ignore[override]
@@ -49,7 +50,9 @@ class PosixUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
         for sock in self.sockets.values():
             sock.close()
 
-        os.close(self.w)
-        os.close(self.r)
+        if not self.closed:
+            self.closed = True
+            os.close(self.w)
+            os.close(self.r)
 
 UdpMultiplexor = PosixUdpMultiplexor
-- 
2.43.0


From 72f2ef40fbcd12cada4554398d2dcedf9ed77869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:20 +0000
Subject: [PATCH 29/30] fix: let go of everything when a v3 request is dropped
 while a report for it is processed

---
 snmp/manager/v3.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 40723de..dd9c4c0 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -303,6 +303,9 @@ class Request:
 
         self.messages: Set[RequestMessage] = set()
 
+        self.closeLock = threading.Lock()
+        self.finalized = False
+
         self.event = threading.Event()
         self.exception: Optional[Exception] = None
         self.response: Optional[SNMPv3Message] = None
@@ -312,6 +315,7 @@ class Request:
         self.period = refreshPeriod
 
     def __del__(self) -> None:
+        self.finalized = True
         self.close()
 
     @property
@@ -346,12 +350,13 @@ class Request:
         self._nextRefresh = min(self.expiration, value)
 
     def close(self) -> None:
-        while self.messages:
-            self.messages.pop().close()
+        with self.closeLock:
+            while self.messages:
+                self.messages.pop().close()
 
-        self.engineID = None
-        while self.engineIDs:
-            self.manager.unregisterRemoteEngine(self.engineIDs.pop())
+            self.engineID = None
+            while self.engineIDs:
+                self.manager.unregisterRemoteEngine(self.engineIDs.pop())
 
     def processNotInTimeWindow(self, engineID: bytes) -> None:
         self.manager.onReport(self, engineID)
@@ -381,6 +386,15 @@ class Request:
 
     # Always update self.nextRefresh right before calling this method
     def reallySend(self, engineID: Optional[bytes] = None) -> None:
+        try:
+            self.sendMessage(engineID)
+        finally:
+            # A weak reference works until __del__() returns, so this might be
+            # a request that another thread has just closed for the last time
+            if self.finalized:
+                self.close()
+
+    def sendMessage(self, engineID: Optional[bytes] = None) -> None:
         pdu = self.pdu
         user = self.userName
         securityLevel = self.securityLevel
-- 
2.43.0


From 310f95dac7f4864e8ace93a9537f93d822b4c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:09 +0000
Subject: [PATCH 30/30] fix: indent the text of a GetBulkRequestPDU inside a
 message like that of other PDUs

---
 snmp/pdu.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/snmp/pdu.py b/snmp/pdu.py
index b9430b7..897a266 100644
--- a/snmp/pdu.py
+++ b/snmp/pdu.py
@@ -322,20 +322,21 @@ class BulkPDU(Constructed):
         return self.toString()
 
     def toString(self, depth: int = 0, tab: str = "    ") -> str:
-        indent = tab * (depth + 1)
+        indent = tab * depth
+        subindent = indent + tab
         return "\n".join((
-            "{}:",
+            "{}{}:",
             "{}Request ID: {}",
             "{}Non-Repeaters: {}",
             "{}Max Repetitions: {}",
             "{}Variable Bindings:",
             "{}"
         )).format(
-            typename(self),
-            indent, self.requestID,
-            indent, self.nonRepeaters,
-            indent, self.maxRepetitions,
-            indent, self.variableBindings.toString(tab * (depth + 2))
+            indent, typename(self),
+            subindent, self.requestID,
+            subindent, self.nonRepeaters,
+            subindent, self.maxRepetitions,
+            subindent, self.variableBindings.toString(subindent + tab)
         )
 
     @classmethod
-- 
2.43.0

