From 76eaff28edb9587bad6f3ebcac9d8bb73022cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 01/83] fix: reject wallet-import text with a bad checksum with
 ValueError

privkey_from_wif subscripted None (TypeError) when the Base58Check
checksum did not match or the payload was empty.
---
 nbc/util/key.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/util/key.py b/nbc/util/key.py
index 4fc05f7..95589fd 100644
--- a/nbc/util/key.py
+++ b/nbc/util/key.py
@@ -83,6 +83,8 @@ def privkey_to_wif(privkey, prefix = b'\x80'):
 # See: https://en.bitcoin.it/wiki/Wallet_import_format
 def privkey_from_wif(privkey, prefix = b'\x80'):
     key = base58.decode_check(privkey)
+    if not key:
+        raise ValueError('invalid wif private key')
     if ORD(prefix) != ORD(key[0]):
         raise ValueError('wif private key has does not match prefix')
     if len(key) == 33:
-- 
2.43.0


From 407dd901bbde6f7c43f1665a678487c3a80c09e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 02/83] fix: make HDWallet.from_extended_key usable, and refuse
 a wrong length

---
 nbc/wallet/hdwallet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 34f9de9..8a17e6f 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -194,9 +194,9 @@ class HDWallet(object):
     return ecc.verify(data,pubKey,signature)
   
   @staticmethod
-  def from_extended_key(extended_key):
-    decoded = base58.b58decode(extended_key,78+4)
-    assert(decoded)
+  def from_extended_key(extended_key, vcn=None):
+    decoded = base58.b58decode(extended_key)
+    if len(decoded) != 78+4: raise ValueError('invalid extended key')
     ekdata = decoded[:78]
     checksum = decoded[78:78+4]
     # validate checksum
@@ -221,7 +221,7 @@ class HDWallet(object):
     else:
       raise Exception('unknown version')
     
-    return HDWallet( key, chaincode, vcn=self.vcn,
+    return HDWallet( key, chaincode, vcn=vcn,
       testnet=testnet, depth=depth,
       childnum=childnum, parentfp=parentfp )
   
-- 
2.43.0


From 78cd8927a62a0cb415f2e32cd773e8449d9ea036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 03/83] fix: HD point decompression takes the root of the
 parity asked for

---
 nbc/wallet/hdwallet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 8a17e6f..25a1cd8 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -29,13 +29,14 @@ def point_compress(point):
 def point_decompress(curve, data):
   prefix = data[0]; ch = ORD(prefix)
   assert(ch in (2,3))  # data[0] should be b'\x02' or b'\x03'
-  parity = 1 if ch == 2 else -1
   
   x = string_to_number(data[1:])
+  if x >= curve.p(): raise ValueError('invalid public key')
   y = numbertheory.square_root_mod_prime( 
     ( x * x * x + curve.a() * x + curve.b() ) % curve.p(),  curve.p()
   )
-  y = parity * y % curve.p()
+  if (ch & 0x01) != (y & 0x01):
+    y = curve.p() - y
   return ellipticcurve.Point(curve, x, y)
 
 class HDWallet(object):
-- 
2.43.0


From 6795fb1c7685464b6f8abef5c8ea183914c9e1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 04/83] fix: child HD wallets keep the address nonce of their
 parent

---
 nbc/wallet/hdwallet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 25a1cd8..98630f2 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -116,6 +116,7 @@ class HDWallet(object):
       childKey = childPubkey
     
     return self.__class__(childKey, childChain, 
+      vcn=self.vcn,
       testnet=self._testnet,
       depth=self._depth + 1,
       parentfp=self.fingerprint(),
-- 
2.43.0


From e8b43e3ff294b5a5d30847af9aa13be99d88458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 05/83] fix: HDWallet reports an unknown key type as TypeError
 on Python 3

---
 nbc/wallet/hdwallet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 98630f2..221006e 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -8,6 +8,7 @@ from ..util import base58, ecc
 from ..util.ecdsa import numbertheory, ellipticcurve, curves
 from ..util.ecdsa import SECP256k1 as curve
 from ..util.ecdsa.util import number_to_string, string_to_number
+from six import integer_types
 
 from .address import _aesEncrypt, _aesDecrypt
 
@@ -53,7 +54,7 @@ class HDWallet(object):
   def __init__(self, key, chain, vcn=None, testnet=False, depth=None, parentfp=None, childnum=None):
     if type(key) == ellipticcurve.Point:        # public key is a point
       self._pubkey = key  
-    elif type(key) == int or type(key) == long: # private key an integer
+    elif type(key) in integer_types: # private key an integer
       assert(0 < key < curve.order)
       self._prvkey = key
     else:
-- 
2.43.0


From 39c5dbf66092342d0365e5b4b678c88bd0a06f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 06/83] fix: wrong passphrase is not accepted when only the
 length prefix decodes

---
 nbc/wallet/address.py  | 2 ++
 nbc/wallet/hdwallet.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index 27789bf..2111b0b 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -202,6 +202,8 @@ class Address(object):
         orgLen = int(prvKey[:2],16); nowLen = len(prvKey)
         if nowLen < 2 + orgLen or nowLen > orgLen + 17:   # 17 is 2 + padding(15)
           raise ValueError('out of range')
+        if prvKey[2+orgLen:].strip(b'\x00'):
+          raise ValueError('invalid padding')
         prvKey = prvKey[2:2+orgLen]  # first 2 bytes is original length
       except:
         raise ValueError('invalid private key')
diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 221006e..178cde2 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -277,6 +277,8 @@ class HDWallet(object):
         orgLen = int(prvKey[:2],16); nowLen = len(prvKey)
         if nowLen < 2 + orgLen or nowLen > orgLen + 17:   # 17 is 2 + padding(15)
           raise ValueError('out of range')
+        if prvKey[2+orgLen:].strip(b'\x00'):
+          raise ValueError('invalid padding')
         prvKey = prvKey[2:2+orgLen]      # first 2 bytes is original length
       except:
         raise ValueError('invalid private key')
-- 
2.43.0


From 9f1d339794c59e8f93c7dd8c52118a3eb1da0f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 07/83] fix: a saved compressed watch-only address stays
 compressed

---
 nbc/wallet/address.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index 2111b0b..5425d8f 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -187,7 +187,7 @@ class Address(object):
       
       cfg['prvkey'] = hexlify(privKey).decode('latin-1')
     elif pubKey:
-      cfg['pubkey'] = hexlify(pubKey).decode('latin-1')
+      cfg['pubkey'] = hexlify(self.publicKey()).decode('latin-1')
     return cfg
   
   @classmethod
-- 
2.43.0


From c9592155daf5cdba09bb6c904fa934eb7c1067ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 08/83] fix: a failed or interrupted save no longer destroys
 the wallet file

---
 nbc/wallet/__init__.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/nbc/wallet/__init__.py b/nbc/wallet/__init__.py
index 8a72ac8..a2039aa 100644
--- a/nbc/wallet/__init__.py
+++ b/nbc/wallet/__init__.py
@@ -1,5 +1,5 @@
 
-import json
+import json, os, shutil, uuid
 from .address import Address
 from .hdwallet import HDWallet
 
@@ -8,8 +8,21 @@ __all__ = ['Address', 'HDWallet', 'loadFrom', 'saveTo']
 def saveTo(fileName, wallet, passphrase=''):
   cfg = wallet.dump_to_cfg(passphrase)
   sCfg = json.dumps(cfg)
-  with open(fileName,'w') as f:
-    f.write(sCfg)
+  
+  # an interrupted save must not destroy the existing wallet, so write aside and then swap
+  fileName = os.path.realpath(fileName)
+  tmpName = '%s.%s.tmp' % (fileName,uuid.uuid4().hex)
+  try:
+    with open(tmpName,'w') as f:
+      f.write(sCfg)
+      f.flush()
+      os.fsync(f.fileno())
+    if os.path.exists(fileName):
+      shutil.copymode(fileName,tmpName)
+    getattr(os,'replace',os.rename)(tmpName,fileName)
+  except:
+    if os.path.exists(tmpName): os.remove(tmpName)
+    raise
 
 def loadFrom(fileName, passphrase=''):
   with open(fileName,'r') as f:
-- 
2.43.0


From 2d250793dfe53aace3af4a9b156d0733018d3f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 09/83] fix: reject, instead of crashing on, signatures whose
 point sum is infinity

---
 nbc/util/ecdsa/ecdsa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index 8ed0247..ddc67d1 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -107,6 +107,7 @@ class Public_key( object ):
     u1 = ( hash * c ) % n
     u2 = ( r * c ) % n
     xy = u1 * G + u2 * self.point
+    if xy == ellipticcurve.INFINITY: return False
     v = xy.x() % n
     return v == r
 
-- 
2.43.0


From 0271ffd0e32a1016b2473c232c33cfb2fb71b5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 10/83] fix: public key coordinates range up to the field
 prime, not the group order

---
 nbc/util/ecdsa/ecdsa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index ddc67d1..33721cb 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -86,7 +86,8 @@ class Public_key( object ):
       raise RuntimeError("Generator point must have order.")
     if not n * point == ellipticcurve.INFINITY:
       raise RuntimeError("Generator point order is bad.")
-    if point.x() < 0 or n <= point.x() or point.y() < 0 or n <= point.y():
+    p = self.curve.p()
+    if point.x() < 0 or p <= point.x() or point.y() < 0 or p <= point.y():
       raise RuntimeError("Generator point has x or y out of range.")
 
 
@@ -195,7 +196,8 @@ def point_is_valid( generator, x, y ):
 
   n = generator.order()
   curve = generator.curve()
-  if x < 0 or n <= x or y < 0 or n <= y:
+  p = curve.p()
+  if x < 0 or p <= x or y < 0 or p <= y:
     return False
   if not curve.contains_point( x, y ):
     return False
-- 
2.43.0


From 47dab1b19501ce68655f6f7d707977da516b86fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 11/83] fix: reduce the r of a signature modulo the group order

---
 nbc/util/ecdsa/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index 33721cb..f7d54de 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -145,7 +145,7 @@ class Private_key( object ):
     n = G.order()
     k = random_k % n
     p1 = k * G
-    r = p1.x()
+    r = p1.x() % n
     if r == 0: raise RuntimeError("amazingly unlucky random number r")
     s = ( numbertheory.inverse_mod( k, n ) * \
           ( hash + ( self.secret_multiplier * r ) % n ) ) % n
-- 
2.43.0


From 4f20d88872868ceb840051e108a8e1ae3bb540f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 12/83] fix: doubling a point of order two gives infinity

---
 nbc/util/ecdsa/ellipticcurve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbc/util/ecdsa/ellipticcurve.py b/nbc/util/ecdsa/ellipticcurve.py
index ba83847..4e26678 100644
--- a/nbc/util/ecdsa/ellipticcurve.py
+++ b/nbc/util/ecdsa/ellipticcurve.py
@@ -157,6 +157,9 @@ class Point( object ):
     p = self.__curve.p()
     a = self.__curve.a()
 
+    if self.__y % p == 0:
+      return INFINITY
+
     l = ( ( 3 * self.__x * self.__x + a ) * \
           numbertheory.inverse_mod( 2 * self.__y, p ) ) % p
 
-- 
2.43.0


From 9e562505954e25b4f4badefafe698d11e81792e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 13/83] fix: scalar multiplication returns reduced coordinates

---
 nbc/util/ecdsa/ellipticcurve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/ellipticcurve.py b/nbc/util/ecdsa/ellipticcurve.py
index 4e26678..01b2a79 100644
--- a/nbc/util/ecdsa/ellipticcurve.py
+++ b/nbc/util/ecdsa/ellipticcurve.py
@@ -124,7 +124,8 @@ class Point( object ):
     # From X9.62 D.3.2:
 
     e3 = 3 * e
-    negative_self = Point( self.__curve, self.__x, -self.__y, self.__order )
+    negative_self = Point( self.__curve, self.__x, -self.__y % self.__curve.p(),
+                           self.__order )
     i = leftmost_bit( e3 ) // 2
     result = self
     # print_("Multiplying %s by %d (e3 = %d):" % ( self, other, e3 ))
-- 
2.43.0


From bc5a9c071c707b531d9aee319cd73788cb2a510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 14/83] fix: refuse an empty public key and an x without a
 point as ValueError

---
 nbc/util/key.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nbc/util/key.py b/nbc/util/key.py
index 95589fd..a1ba685 100644
--- a/nbc/util/key.py
+++ b/nbc/util/key.py
@@ -25,7 +25,7 @@ from . import base58
 
 from .ecdsa.ecdsa import point_is_valid
 from .ecdsa import SECP256k1 as curve
-from .ecdsa.numbertheory import square_root_mod_prime
+from .ecdsa.numbertheory import square_root_mod_prime, SquareRootError
 from .ecdsa.util import number_to_string, string_to_number
 
 import hashlib
@@ -54,6 +54,8 @@ _p = curve.curve.p()
 _n = curve.order
 
 def decompress_public_key(public_key):
+    if not public_key:
+        raise ValueError('invalid public key')
     ch = ORD(public_key[0])
     if ch == 4 and len(public_key) == 65:
         x = string_to_number(public_key[1:33])
@@ -66,7 +68,10 @@ def decompress_public_key(public_key):
         raise ValueError('invalid compressed public key')
 
     x = string_to_number(public_key[1:])
-    y = square_root_mod_prime((x ** 3 + _a * x + _b) % _p, _p)
+    try:
+        y = square_root_mod_prime((x ** 3 + _a * x + _b) % _p, _p)
+    except SquareRootError:
+        raise ValueError('invalid public key')
     if not point_is_valid(curve.generator, x, y):
         raise ValueError('invalid public key')
 
-- 
2.43.0


From e754c4f6e40e85d7370d10398607d4ebb7507361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 15/83] fix: a malformed signature is answered with False
 instead of an exception

---
 nbc/util/ecc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/ecc.py b/nbc/util/ecc.py
index 156212d..2ea319e 100644
--- a/nbc/util/ecc.py
+++ b/nbc/util/ecc.py
@@ -45,7 +45,7 @@ def twos_comp(val, bits):
 def remove_integer(string):
     if not string.startswith(b("\x02")):
         n = string[0] if isinstance(string[0], der.integer_types) else ord(string[0])
-        raise UnexpectedDER("wanted integer (0x02), got 0x%02x" % n)
+        raise der.UnexpectedDER("wanted integer (0x02), got 0x%02x" % n)
     length, llen = der.read_length(string[1:])
     numberbytes = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
@@ -87,7 +87,7 @@ def verify(data, public_key, signature):
     key = ecdsa.VerifyingKey.from_string(public_key[1:], ecdsa.SECP256k1)
     try:
         return key.verify_digest(signature, sha256d(data), sigdecode = sigdecode_der)
-    except ecdsa.BadSignatureError as e:
+    except (ecdsa.BadSignatureError, der.UnexpectedDER, ValueError, IndexError):
         return False
 
 from .ecdsa.util import number_to_string, string_to_number
-- 
2.43.0


From 258fe82caa9c9a639b3240292519bce999fb3da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 16/83] fix: refuse an out-of-range private key in
 shared_secret

---
 nbc/util/ecc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/util/ecc.py b/nbc/util/ecc.py
index 2ea319e..6202ec9 100644
--- a/nbc/util/ecc.py
+++ b/nbc/util/ecc.py
@@ -100,6 +100,8 @@ def shared_secret(public_key, private_key):
 
     privkey = privkey_from_wif(private_key)
     secexp = string_to_number(privkey)
+    if not 0 < secexp < curve.order:
+        raise ValueError('invalid private key')
 
     shared_point = public_point * secexp
     shared_key = number_to_string(shared_point.x(), curve.order)
-- 
2.43.0


From bee491f964195fef05474d8fd2ec7094b7e1a2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 17/83] fix: DER integers of 128 bytes and more get a long-form
 length

---
 nbc/util/ecdsa/der.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/ecdsa/der.py b/nbc/util/ecdsa/der.py
index abcec34..927bbb1 100644
--- a/nbc/util/ecdsa/der.py
+++ b/nbc/util/ecdsa/der.py
@@ -17,12 +17,12 @@ def encode_integer(r):
     s = binascii.unhexlify(h)
     num = s[0] if isinstance(s[0], integer_types) else ord(s[0])
     if num <= 0x7f:
-        return b("\x02") + int2byte(len(s)) + s
+        return b("\x02") + encode_length(len(s)) + s
     else:
         # DER integers are two's complement, so if the first byte is
         # 0x80-0xff then we need an extra 0x00 byte to prevent it from
         # looking negative.
-        return b("\x02") + int2byte(len(s)+1) + b("\x00") + s
+        return b("\x02") + encode_length(len(s)+1) + b("\x00") + s
 
 def encode_bitstring(s):
     return b("\x03") + encode_length(len(s)) + s
-- 
2.43.0


From 62cc7276fc6a47f650d510f70e90d15cef3833a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 18/83] fix: DER data that ends before its declared length is
 refused

---
 nbc/util/ecdsa/der.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/der.py b/nbc/util/ecdsa/der.py
index 927bbb1..f7d3470 100644
--- a/nbc/util/ecdsa/der.py
+++ b/nbc/util/ecdsa/der.py
@@ -48,6 +48,10 @@ def encode_number(n):
     b128_digits[-1] &= 0x7f
     return b('').join([int2byte(d) for d in b128_digits])
 
+def check_length(string, end):
+    if end > len(string):
+        raise UnexpectedDER("ran out of bytes")
+
 def remove_constructed(string):
     s0 = string[0] if isinstance(string[0], integer_types) else ord(string[0])
     if (s0 & 0xe0) != 0xa0:
@@ -55,6 +59,7 @@ def remove_constructed(string):
                             % s0)
     tag = s0 & 0x1f
     length, llen = read_length(string[1:])
+    check_length(string, 1+llen+length)
     body = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     return tag, body, rest
@@ -65,6 +70,7 @@ def remove_sequence(string):
         raise UnexpectedDER("wanted sequence (0x30), got 0x%02x" % n)
     length, lengthlength = read_length(string[1:])
     endseq = 1+lengthlength+length
+    check_length(string, endseq)
     return string[1+lengthlength:endseq], string[endseq:]
 
 def remove_octet_string(string):
@@ -72,6 +78,7 @@ def remove_octet_string(string):
         n = string[0] if isinstance(string[0], integer_types) else ord(string[0])
         raise UnexpectedDER("wanted octetstring (0x04), got 0x%02x" % n)
     length, llen = read_length(string[1:])
+    check_length(string, 1+llen+length)
     body = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     return body, rest
@@ -81,6 +88,7 @@ def remove_object(string):
         n = string[0] if isinstance(string[0], integer_types) else ord(string[0])
         raise UnexpectedDER("wanted object (0x06), got 0x%02x" % n)
     length, lengthlength = read_length(string[1:])
+    check_length(string, 1+lengthlength+length)
     body = string[1+lengthlength:1+lengthlength+length]
     rest = string[1+lengthlength+length:]
     numbers = []
@@ -100,6 +108,7 @@ def remove_integer(string):
         n = string[0] if isinstance(string[0], integer_types) else ord(string[0])
         raise UnexpectedDER("wanted integer (0x02), got 0x%02x" % n)
     length, llen = read_length(string[1:])
+    check_length(string, 1+llen+length)
     numberbytes = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     nbytes = numberbytes[0] if isinstance(numberbytes[0], integer_types) else ord(numberbytes[0])
@@ -116,7 +125,7 @@ def read_number(string):
     llen = 0
     # base-128 big endian, with b7 set in all but the last byte
     while True:
-        if llen > len(string):
+        if llen >= len(string):
             raise UnexpectedDER("ran out of length bytes")
         number = number << 7
         d = string[llen] if isinstance(string[llen], integer_types) else ord(string[llen])
@@ -154,6 +163,7 @@ def remove_bitstring(string):
     if not string.startswith(b("\x03")):
         raise UnexpectedDER("wanted bitstring (0x03), got 0x%02x" % num)
     length, llen = read_length(string[1:])
+    check_length(string, 1+llen+length)
     body = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     return body, rest
-- 
2.43.0


From ce119b2bcded33d529c67ffb675ac6d533c9dcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 19/83] fix: RFC 6979 nonce draws no extra block on Python 3

---
 nbc/util/ecdsa/rfc6979.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/rfc6979.py b/nbc/util/ecdsa/rfc6979.py
index 377e877..384afc1 100644
--- a/nbc/util/ecdsa/rfc6979.py
+++ b/nbc/util/ecdsa/rfc6979.py
@@ -61,7 +61,7 @@ def generate_k(generator, secexp, hash_func, data):
 
     qlen = bit_length(generator.order())
     holen = hash_func().digest_size
-    rolen = (qlen + 7) / 8
+    rolen = (qlen + 7) // 8
     bx = number_to_string(secexp, generator.order()) + bits2octets(data, generator.order())
 
     # Step B
-- 
2.43.0


From 5160fab183d5b342ad4934464ad82b103b07c8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 20/83] fix: canonical signatures compare s with half the order
 exactly

---
 nbc/util/ecdsa/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/ecdsa/util.py b/nbc/util/ecdsa/util.py
index 5d2f373..e170f5d 100644
--- a/nbc/util/ecdsa/util.py
+++ b/nbc/util/ecdsa/util.py
@@ -201,17 +201,17 @@ def sigencode_der(r, s, order):
 # these enforce low S values, by negating the value (modulo the order) if above order/2
 # see CECKey::Sign() https://github.com/bitcoin/bitcoin/blob/master/src/key.cpp#L214
 def sigencode_strings_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_strings(r, s, order)
 
 def sigencode_string_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_string(r, s, order)
 
 def sigencode_der_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_der(r, s, order)
 
-- 
2.43.0


From e0e0fc6353b2cd799a54418973a3e363da4fb138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 21/83] fix: truncating seed generators work on Python 3 and
 keep the right bits

---
 nbc/util/ecdsa/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/ecdsa/util.py b/nbc/util/ecdsa/util.py
index e170f5d..48407d4 100644
--- a/nbc/util/ecdsa/util.py
+++ b/nbc/util/ecdsa/util.py
@@ -120,7 +120,7 @@ def randrange_from_seed__truncate_bytes(seed, order, hashmod=sha256):
     if extrabits:
         bytes += 1
     base = hashmod(seed).digest()[:bytes]
-    base = "\x00"*(bytes-len(base)) + base
+    base = b("\x00")*(bytes-len(base)) + base
     number = 1+int(binascii.hexlify(base), 16)
     assert 1 <= number < order
     return number
@@ -131,10 +131,10 @@ def randrange_from_seed__truncate_bits(seed, order, hashmod=sha256):
     bits = int(math.log(order-1, 2)+1)
     maxbytes = (bits+7) // 8
     base = hashmod(seed).digest()[:maxbytes]
-    base = "\x00"*(maxbytes-len(base)) + base
+    base = b("\x00")*(maxbytes-len(base)) + base
     topbits = 8*maxbytes - bits
     if topbits:
-        base = int2byte(ord(base[0]) & lsb_of_ones(topbits)) + base[1:]
+        base = int2byte(ord(base[0:1]) & lsb_of_ones(8-topbits)) + base[1:]
     number = 1+int(binascii.hexlify(base), 16)
     assert 1 <= number < order
     return number
-- 
2.43.0


From f1afcac515918393de14efebec3e2319ca1daee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 22/83] fix: sign_digest_deterministic falls back to the
 default hash function

---
 nbc/util/ecdsa/keys.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/util/ecdsa/keys.py b/nbc/util/ecdsa/keys.py
index 2ce9c2a..1ec4fc5 100644
--- a/nbc/util/ecdsa/keys.py
+++ b/nbc/util/ecdsa/keys.py
@@ -231,6 +231,7 @@ class SigningKey:
         random generator and producing deterministic (reproducible) signatures.
         See RFC 6979 for more details.
         """
+        hashfunc = hashfunc or self.default_hashfunc
         secexp = self.privkey.secret_multiplier
         k = rfc6979.generate_k(self.curve.generator, secexp, hashfunc, digest)
 
-- 
2.43.0


From eebfabcc59a9dd021e890bab28367cd2832f3986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 23/83] fix: order_mod reduces its argument first

---
 nbc/util/ecdsa/numbertheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/numbertheory.py b/nbc/util/ecdsa/numbertheory.py
index f2be882..fd6372b 100644
--- a/nbc/util/ecdsa/numbertheory.py
+++ b/nbc/util/ecdsa/numbertheory.py
@@ -353,7 +353,7 @@ def order_mod( x, m ):
 
   assert gcd( x, m ) == 1
 
-  z = x
+  z = x % m
   result = 1
   while z != 1:
     z = ( z * x ) % m
-- 
2.43.0


From 82492461553bb0c8dd23ed435df807c8ec7b23e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 24/83] fix: signature integers cut short are not accepted

---
 nbc/util/ecc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/util/ecc.py b/nbc/util/ecc.py
index 6202ec9..22ef28c 100644
--- a/nbc/util/ecc.py
+++ b/nbc/util/ecc.py
@@ -47,6 +47,7 @@ def remove_integer(string):
         n = string[0] if isinstance(string[0], der.integer_types) else ord(string[0])
         raise der.UnexpectedDER("wanted integer (0x02), got 0x%02x" % n)
     length, llen = der.read_length(string[1:])
+    der.check_length(string, 1+llen+length)
     numberbytes = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     #nbytes = numberbytes[0] if isinstance(numberbytes[0], der.integer_types) else ord(numberbytes[0])
-- 
2.43.0


From 30aeb6f80bfe3d8ecf018b3ef00232ed224eb7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 25/83] fix: AES-256 key expansion on Python 3

---
 nbc/util/pyaes/aes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/util/pyaes/aes.py b/nbc/util/pyaes/aes.py
index 1b062ad..5afbaea 100644
--- a/nbc/util/pyaes/aes.py
+++ b/nbc/util/pyaes/aes.py
@@ -158,16 +158,16 @@ class AES(object):
 
             # Key expansion for 256-bit keys is "slightly different" (fips-197)
             else:
-                for i in xrange(1, KC / 2):
+                for i in xrange(1, KC // 2):
                     tk[i] ^= tk[i - 1]
-                tt = tk[KC / 2 - 1]
+                tt = tk[KC // 2 - 1]
 
-                tk[KC / 2] ^= (self.S[ tt        & 0xFF]        ^
+                tk[KC // 2] ^= (self.S[ tt        & 0xFF]        ^
                               (self.S[(tt >>  8) & 0xFF] <<  8) ^
                               (self.S[(tt >> 16) & 0xFF] << 16) ^
                               (self.S[(tt >> 24) & 0xFF] << 24))
 
-                for i in xrange(KC / 2 + 1, KC):
+                for i in xrange(KC // 2 + 1, KC):
                     tk[i] ^= tk[i-1]
 
             # Copy values into round key arrays
-- 
2.43.0


From a0fad8d3bded76cad0f6bb3a81c6871fcf8779ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 26/83] fix: refuse CFB segments longer than a block instead of
 losing data

---
 nbc/util/pyaes/aes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/util/pyaes/aes.py b/nbc/util/pyaes/aes.py
index 5afbaea..509496b 100644
--- a/nbc/util/pyaes/aes.py
+++ b/nbc/util/pyaes/aes.py
@@ -407,6 +407,8 @@ class AESModeOfOperationCFB(AESSegmentModeOfOperation):
 
     def __init__(self, key, iv, segment_size = 1):
         if segment_size == 0: segment_size = 1
+        if not 1 <= segment_size <= 16:
+            raise ValueError('segment size must be 1 to 16 bytes')
 
         if iv is None:
             self._shift_register = [ 0 ] * 16
-- 
2.43.0


From 5935e8124724af361889d997d1643b8dfd346796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 27/83] fix: AES block feeders handle bytes on Python 3

---
 nbc/util/pyaes/blockfeeder.py | 4 ++--
 nbc/util/pyaes/util.py        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/pyaes/blockfeeder.py b/nbc/util/pyaes/blockfeeder.py
index c0ec3ab..b8fcdb4 100644
--- a/nbc/util/pyaes/blockfeeder.py
+++ b/nbc/util/pyaes/blockfeeder.py
@@ -111,7 +111,7 @@ class BlockFeeder(object):
         self._mode = mode
         self._feed = feed
         self._final = final
-        self._buffer = ""
+        self._buffer = b''
 
     def feed(self, data = None):
         '''Provide bytes to encrypt (or decrypt), returning any bytes
@@ -133,7 +133,7 @@ class BlockFeeder(object):
         self._buffer += data
 
         # We keep 16 bytes around so we can determine padding
-        result = ''
+        result = b''
         while len(self._buffer) > 16:
             can_consume = self._mode._can_consume(len(self._buffer) - 16)
             if can_consume == 0: break
diff --git a/nbc/util/pyaes/util.py b/nbc/util/pyaes/util.py
index 5c7c140..02e10cb 100644
--- a/nbc/util/pyaes/util.py
+++ b/nbc/util/pyaes/util.py
@@ -31,7 +31,7 @@ def strip_PKCS7_padding(data):
     if len(data) % 16 != 0:
         raise ValueError("invalid length")
 
-    pad = ord(data[-1])
+    pad = bytearray(data)[-1]
 
     if pad > 16:
         raise ValueError("invalid padding byte")
-- 
2.43.0


From 72b04d45bbc244e15b55b72a5f023dac40768272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 28/83] fix: refuse malformed PKCS#7 padding

---
 nbc/util/pyaes/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/pyaes/util.py b/nbc/util/pyaes/util.py
index 02e10cb..d73559d 100644
--- a/nbc/util/pyaes/util.py
+++ b/nbc/util/pyaes/util.py
@@ -33,7 +33,7 @@ def strip_PKCS7_padding(data):
 
     pad = bytearray(data)[-1]
 
-    if pad > 16:
+    if not 1 <= pad <= 16 or data[-pad:] != pad * CHR(pad):
         raise ValueError("invalid padding byte")
 
     return data[:-pad]
-- 
2.43.0


From 1ad0845f279e5e9fe3c7514ae6987f54b5447bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 29/83] fix: piecewise keys work on Python 3

---
 nbc/util/piecewise.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index 1d9ec86..71a96bb 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -55,6 +55,9 @@ from .key import privkey_from_wif, privkey_to_wif, publickey_to_address
 
 __all__ = ['get_address', 'combine_private_keys']
 
+def ORD(ch):  # compatible to python3
+  return ch if type(ch) == int else ord(ch)
+
 def CHR(i):  # compatible to python3
   return bytes(bytearray((i,)))
 
@@ -62,7 +65,7 @@ def get_address(public_key, private_key, version = b'\x00'):
     'Returns the address generated by combiningn a public key and private key.'
 
     # valid public key?
-    if len(public_key) != 65 or public_key[0] != b'\x04':
+    if len(public_key) != 65 or public_key[0:1] != b'\x04':
         raise ValueError('public key must be decompressed')
 
     # the public key's elliptic curve point
@@ -113,7 +116,7 @@ def split_private_key(private_key, count = 2):
     secexp = string_to_number(private_key)
 
     # generate random secret exponents, less one
-    secexps = [randrange(curve.order) for i in xrange(count - 1)]
+    secexps = [randrange(curve.order) for i in range(count - 1)]
 
     # compute the missing secret exponent that will sum to the given key
     secexp_missing = (secexp - sum(secexps)) % curve.order
@@ -203,13 +206,13 @@ def partial_split_private_key(private_key, required, total):
         return [partial_encode_key(k, index) for k in keys]
 
     # total sets of required keys
-    keys = [get_keys(i) for i in xrange(0, total)]
+    keys = [get_keys(i) for i in range(0, total)]
 
     # create linearly independent immutable sets of keys
     groups = []
-    for i in xrange(0, total):
+    for i in range(0, total):
         group = []
-        for j in xrange(0, required):
+        for j in range(0, required):
             group.append(keys[(i + j) % total][j])
         groups.append(frozenset(group))
 
@@ -233,11 +236,11 @@ def partial_combine_private_keys(private_keys, ignore_errors = False):
 
         # ...convert private keys to binary form
         private_key = decode_check(key)
-        if not private_key.startswith('\x10\x01'):
+        if not private_key or not private_key.startswith(b'\x10\x01'):
             raise ValueError('invalid combined key: %s' % key)
 
         # ...verify the required number of keys
-        r = ord(private_key[3])
+        r = ORD(private_key[3])
         if required is None:
             required = r
         elif required != r:
@@ -255,7 +258,7 @@ def partial_combine_private_keys(private_keys, ignore_errors = False):
             raise ValueError('key checksum does not match set: %s' % key)
 
         # ...add this key to the correct key-set
-        index = ord(private_key[2])
+        index = ORD(private_key[2])
         if index not in parts: parts[index] = set()
         parts[index].add(private_key[8:])
 
@@ -280,12 +283,12 @@ def partial_split_qr_encode(private_keys):
     binary = []
 
     for private_key in map(decode_check, private_keys):
-        if private_key[0:2] != '\x10\x01':
+        if not private_key or private_key[0:2] != b'\x10\x01':
             raise ValueError('invalid combined key')
 
         if required is None:
-            required = ord(private_key[3])
-        elif ord(private_key[3]) != required:
+            required = ORD(private_key[3])
+        elif ORD(private_key[3]) != required:
             raise ValueError('unmatched private keys')
 
         if checksum is None:
@@ -293,11 +296,11 @@ def partial_split_qr_encode(private_keys):
         elif private_key[4:8] != checksum:
             raise ValueError('unmatched private keys')
 
-        binary.append((ord(private_key[2]), private_key[8:]))
+        binary.append((ORD(private_key[2]), private_key[8:]))
 
     binary.sort()
     missing = len(binary)
-    for i in xrange(0, len(binary)):
+    for i in range(0, len(binary)):
         if binary[i][0] != i:
             missing = i
             break
@@ -305,23 +308,24 @@ def partial_split_qr_encode(private_keys):
     for private_key in binary:
         qr += private_key[1]
 
-    return base64.b32encode(qr).strip('=')
+    return base64.b32encode(qr).strip(b'=')
 
 def partial_split_qr_decode(qr_code):
     'Decode a partial key-set QR code.'
 
     # calculate padding that would have been stripped
     padding = (len(qr_code) * 5 - 9 * 8) % 32
-    binary = base64.b32decode(qr_code + ('=' * padding))
+    if not isinstance(qr_code, bytes): qr_code = qr_code.encode('latin-1')
+    binary = base64.b32decode(qr_code + (b'=' * padding))
 
     # check the header
-    if not binary.startswith('\x84\x7c\x20'):
+    if not binary.startswith(b'\x84\x7c\x20'):
         raise ValueError('invalid header')
 
     # the missing index for this set
-    missing = ord(binary[3])
+    missing = ORD(binary[3])
 
-    required = ord(binary[4])
+    required = ORD(binary[4])
     checksum = binary[5:9]
 
     # extract each binary key and recompose the key
-- 
2.43.0


From 4bdd0fb6f9d7e581dc5c1fa644ec85455c95b194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 30/83] fix: QR key-sets are decoded with the base32 padding
 they need

---
 nbc/util/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index 71a96bb..22e9c64 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -314,7 +314,7 @@ def partial_split_qr_decode(qr_code):
     'Decode a partial key-set QR code.'
 
     # calculate padding that would have been stripped
-    padding = (len(qr_code) * 5 - 9 * 8) % 32
+    padding = -len(qr_code) % 8
     if not isinstance(qr_code, bytes): qr_code = qr_code.encode('latin-1')
     binary = base64.b32decode(qr_code + (b'=' * padding))
 
-- 
2.43.0


From c22761b99f21f7f625667c91685ceb63cb8ab338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 31/83] fix: piecewise address is the address of the combined
 key

---
 nbc/util/piecewise.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index 22e9c64..2380494 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -61,7 +61,7 @@ def ORD(ch):  # compatible to python3
 def CHR(i):  # compatible to python3
   return bytes(bytearray((i,)))
 
-def get_address(public_key, private_key, version = b'\x00'):
+def get_address(public_key, private_key, version = b'\x00', vcn = 0):
     'Returns the address generated by combiningn a public key and private key.'
 
     # valid public key?
@@ -84,10 +84,10 @@ def get_address(public_key, private_key, version = b'\x00'):
     # compute the new public key
     x = number_to_string(combined.x(), curve.order)
     y = number_to_string(combined.y(), curve.order)
-    key_combined = b'\x00' + x + y
+    key_combined = b'\x04' + x + y
 
     # return the public key's address
-    return publickey_to_address(key_combined, version = version)
+    return publickey_to_address(key_combined, vcn, version = version)
 
 
 def combine_private_keys(private_keys):
-- 
2.43.0


From 24ca703d51b0baac08d3e668ac5190ba18b6fd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 32/83] fix: get_target works on Python 3 and for exponents
 below three

---
 nbc/util/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index 455992a..530e1ea 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -21,6 +21,7 @@
 # THE SOFTWARE.
 
 
+import binascii
 import hashlib
 import json
 import math
@@ -72,8 +73,10 @@ def verify_target(coin, block_header):
     return pow <= get_target(block_header.bits)
 
 def get_target(bits):
-    target = ((bits & 0x7fffff) * 2 ** (8 * ((bits >> 24) - 3)))
-    return ("%064x" % target).decode('hex')
+    shift = 8 * ((bits >> 24) - 3)
+    target = bits & 0x7fffff
+    target = target << shift if shift >= 0 else target >> -shift
+    return binascii.unhexlify(("%064x" % target).encode('ascii'))
 
 
 DifficultyOneTarget = 26959535291011309493156476344723991336010898738574164086137773096960.0
-- 
2.43.0


From 4c4769677816143a1483c583597fea006e782676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 33/83] fix: hex helpers work on Python 3

---
 nbc/util/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index 530e1ea..d173141 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -99,11 +99,11 @@ def get_merkle_root(transactions):
 # Hexlify Helpers
 
 def hex_to_bin(data):
-    return data.decode('hex')[::-1]
+    return binascii.unhexlify(data)[::-1]
 
 
 def bin_to_hex(data):
-    return data[::-1].encode('hex')
+    return binascii.hexlify(data[::-1]).decode('ascii')
 
 
 # Protocl Version Helpers
-- 
2.43.0


From 2837477262870554a6904fae804fba4d48ca4b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 34/83] fix: JSON sources can step into lists

---
 nbc/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index d173141..016b3ab 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -149,7 +149,7 @@ def fetch_url_json_path_int(url, path):
             for component in path.split('/'):
                 if isinstance(data, dict):
                     data = data[component]
-                elif ininstance(data, (list, tuple)):
+                elif isinstance(data, (list, tuple)):
                     data = data[int(component)]
                 else:
                     return None
-- 
2.43.0


From b076d79b8bb80d9f037a4605a6455993e3800e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 35/83] fix: nine-byte VarIntegers are read, limits use the
 shortest form

---
 nbc/protocol/format.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index fc92c12..08b9459 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -235,9 +235,9 @@ class FtVarInteger(FormatType):
   def binary(obj):
     if obj < 0xfd:
       return struct.pack('<B',obj)
-    elif obj < 0xffff:
+    elif obj <= 0xffff:
       return b'\xfd' + struct.pack('<H',obj)
-    elif obj < 0xffffffff:
+    elif obj <= 0xffffffff:
       return b'\xfe' + struct.pack('<I',obj)
     return b'\xff' + struct.pack('<Q',obj)
 
@@ -248,7 +248,7 @@ class FtVarInteger(FormatType):
       return (3,struct.unpack('<H', data[1:3])[0])
     elif value == 0xfe:
       return (5,struct.unpack('<I', data[1:5])[0])
-    elif value == 0xfd:
+    elif value == 0xff:
       return (9,struct.unpack('<Q', data[1:9])[0])
     return (1,value)
   
-- 
2.43.0


From 4d316d1ad548104c62cb095934cb8c50d71419d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 36/83] fix: VarIntegers that cannot be sent are refused on
 construction

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 08b9459..806a50a 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -227,7 +227,7 @@ class FtNumber(FormatType):
 class FtVarInteger(FormatType):
   @staticmethod
   def validate(obj):
-    if isinstance(obj, int):
+    if isinstance(obj,integer_types) and 0 <= obj <= 0xffffffffffffffff:
       return obj
     return None
   
-- 
2.43.0


From c4384b62b915d5e93141f549285776f4dd016363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 37/83] fix: fields cut off by the end of the payload are
 errors

---
 nbc/protocol/format.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 806a50a..3667b60 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -339,6 +339,8 @@ class FtBytes(FormatType):
     return obj
   
   def parse(self, data):
+    if len(data) < self._length:
+      raise ValueError('out of data')
     return (self._length, data[:self._length])
   
   def str(self, obj):
@@ -368,6 +370,8 @@ class FtVarString(FormatType):
     else: data = data.encode('latin-1') # for python3
     (vl,length) = FtVarInteger.parse(data)
     obj = data[vl:vl+length]
+    if len(obj) != length:
+      raise ValueError('out of data')
     return (vl + len(obj), obj)
   
   def str(self, obj):
-- 
2.43.0


From 88c48a41a44104a1791a3756db6d28d413be1da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 38/83] fix: OutPoint comparison

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 3667b60..286fd9d 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -450,7 +450,7 @@ class OutPoint(CompoundType):
   def __eq__(self, other):
     if not isinstance(other,OutPoint):
       return False
-    return (self.hash == other.hash) and (self.index == otehr.index)
+    return (self.hash == other.hash) and (self.index == other.index)
 
 class FtOutPoint(FtInventoryVector):
   expected_type = OutPoint
-- 
2.43.0


From 8c349e3ce1127094d6f941ba0cba6f71307621fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 39/83] fix: messages with byte fields can be printed

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 286fd9d..33c4edc 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -344,7 +344,7 @@ class FtBytes(FormatType):
     return (self._length, data[:self._length])
   
   def str(self, obj):
-    return b'0x' + hexlify(obj)
+    return '0x' + hexlify(obj).decode('ascii')
   
   def __str__(self):
     return '<FtBytes length=%d>' % self._length
-- 
2.43.0


From 112682b85d5610450ea1664f7ad4c9942b04d51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 40/83] fix: messages marked not_regist are not registered

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 33c4edc..3c6a765 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -50,7 +50,7 @@ class _AutoRegister(type):
     
     for base in bases:
       if hasattr(base,'register'):
-        if hasattr(base,'not_regist') and not base.not_regist:
+        if not getattr(cls,'not_regist',False):
           base.register(cls)
         break
 
-- 
2.43.0


From 8bb8cb8f66a46e902dd343e5b31aaf5e3dfb4bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 41/83] fix: surplus positional arguments are refused

---
 nbc/protocol/format.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 3c6a765..6353b18 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -60,6 +60,8 @@ class CompoundType(object):
   
   def __init__(self, *args, **kw):
     keys = [k for (k, t) in self.properties] # self.properties defines all args and kw
+    if len(args) > len(keys):
+      raise TypeError('takes exactly %d arguments (%d given)' % (len(keys),len(args)))
     
     # convert the positional arguments into kw
     params = dict(zip(keys,args))
-- 
2.43.0


From 171393ff0ea6be55fb6a26bb0920fc65a3188aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 42/83] fix: exactly IPv4 and IPv6 addresses are accepted

---
 nbc/protocol/format.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 6353b18..6e44569 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -261,13 +261,16 @@ class FtIPAddress(FormatType):
   @staticmethod
   def _ipv4_groups(obj):
     # convert each group to its value
-    try:
-      groups = [int(i) for i in obj.split('.')]
-    except ValueError as e:
+    objs = obj.split('.')
+    if len(objs) != 4:
       return None
     
-    if len(groups) != 4:
-      return None
+    groups = []
+    for group in objs:
+      if group == '' or group.strip('0123456789'):
+        return None
+      groups.append(int(group))
+    
     for group in groups:
       if not (0x00 <= group <= 0xff):
         return None
@@ -278,13 +281,17 @@ class FtIPAddress(FormatType):
   def _ipv6_groups(obj):  # not support '::192.1.56.10/96'
     # multiple double-colons or more than 8 groups; bad address
     objs = obj.split(':')
-    if len(objs) < 2: return None
-    if objs[0] == '' and objs[1] == '':      # starts with ::
+    if len(objs) < 3: return None
+    if objs[0] == '':                        # starts with ::
+      if objs[1] != '': return None
       del objs[0]
-    elif objs[-1] == '' and objs[-2] == '':  # ends with ::
+    if objs[-1] == '':                       # ends with ::
+      if objs[-2] != '': return None
       del objs[-1]
     if objs.count('') > 1 or len(objs) > 8:
       return None
+    if '' not in objs and len(objs) != 8:
+      return None
     
     # calculate each group's value
     groups = []
@@ -292,6 +299,8 @@ class FtIPAddress(FormatType):
       if group == '':
         groups.extend([ 0 ] * (9 - len(objs)))
       else:
+        if len(group) > 4 or group.strip('0123456789abcdefABCDEF'):
+          return None
         groups.append(int(group,16))
     
     # is each group in the correct range?
-- 
2.43.0


From a7e1fd4ce11d12fa774e6602a76c0567e42da3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 43/83] fix: text without a byte form is refused on
 construction

---
 nbc/protocol/format.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 6e44569..345664d 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -363,7 +363,13 @@ class FtBytes(FormatType):
 class FtVarString(FormatType):
   @staticmethod
   def validate(obj):
-    if isinstance(obj,(bytes,str)):
+    if isinstance(obj,bytes):
+      return obj
+    if isinstance(obj,str):
+      try:
+        obj.encode('latin-1')
+      except UnicodeError:
+        return None
       return obj
     return None
   
-- 
2.43.0


From 31102a2692901d1b7e7e47593d41878502de7010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 44/83] fix: a frame with missing payload bytes is refused

---
 nbc/protocol/messages.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index 1bda2e1..e635698 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -90,6 +90,8 @@ class Message(format.CompoundType):
     # get binary payload
     (length, ) = struct.unpack('<I', data[16:20])
     payload = data[24:24 + length]
+    if len(payload) != length:
+      raise MsgFormatError('bad length')
     
     # check the checksum
     checksum = hashlib.sha256(hashlib.sha256(payload).digest()).digest()[:4]
-- 
2.43.0


From 3ce2398985cbc9469c9694453d09cc1101fcf278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 45/83] fix: only trailing NUL bytes pad a command

---
 nbc/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index e635698..9691e9a 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -99,7 +99,7 @@ class Message(format.CompoundType):
       raise MsgFormatError('bad checksum')
     
     # get the correct class for this message's command
-    command = data[4:16].strip(b'\x00').decode('latin-1')
+    command = data[4:16].rstrip(b'\x00').decode('latin-1')
     msg_type = cls.MessageTypes.get(command)
     if msg_type is None:
       raise UnknownMsgError('command: %r (%r)' % (command, data))
-- 
2.43.0


From f5c9cc1e8bc54d1051e658e4aff93f4e12487bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 46/83] fix: a cut-off alert payload leaves no partial values
 behind

---
 nbc/protocol/messages.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index 9691e9a..2528167 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -349,61 +349,60 @@ class Alert(Message):
   # The above properties will use this method to extract and cache everything
   def _parse_and_get(self, name):
     if not hasattr(self, '_data'):
-      self._data = dict()
-    
-    if not self._data:
       data = self.payload
       
-      self._data = dict()
+      parsed = dict()
       
       offset = 0
       
       # extract version, relay_until, expiration, id and cancel
       (v, r, e, i, c) = struct.unpack('<iqqii', data[offset:offset + 28])
-      self._data['version'] = v
-      self._data['relay_until'] = r
-      self._data['expiration'] = e
-      self._data['id'] = i
-      self._data['cancel'] = c
+      parsed['version'] = v
+      parsed['relay_until'] = r
+      parsed['expiration'] = e
+      parsed['id'] = i
+      parsed['cancel'] = c
       offset += 28
       
       # extract the set of alerts this alert cancels
       (vl, s) = format.parse_var_set(data[offset:], format.FtNumber('i'))
-      self._data['set_cancel'] = s
+      parsed['set_cancel'] = s
       offset += vl
       
       # extract minimum and maximum versions affecte by this alert
       (minver, maxver) = struct.unpack('<ii', data[offset:offset + 8])
-      self._data['min_ver'] = minver
-      self._data['max_ver'] = maxver
+      parsed['min_ver'] = minver
+      parsed['max_ver'] = maxver
       offset += 8
       
       # extract the set of sub-versions affected by this alert
       (vl, s) = format.parse_var_set(data[offset:], format.FtVarString())
-      self._data['set_sub_ver'] = s
+      parsed['set_sub_ver'] = s
       offset += vl
       
       # extract priority
       (p, ) = struct.unpack('<i', data[offset:offset + 4])
-      self._data['priority'] = p
+      parsed['priority'] = p
       offset += 4
       
       # extract comment (no need to display)
       (vl, c) = format.FtVarString.parse(data[offset:])
-      self._data['comment'] = c
+      parsed['comment'] = c
       offset += vl
       
       # extract status bar message (should be shown in the UI)
       (vl, s) = format.FtVarString.parse(data[offset:])
-      self._data['status_bar'] = s
+      parsed['status_bar'] = s
       offset += vl
       
       # just incase *this* is an old version and the new format includes
       # extra stuff, we can still view it
       (vl, r) = format.FtVarString.parse(data[offset:])
-      self._data['reserved'] = r
+      parsed['reserved'] = r
       offset += vl
       
+      self._data = parsed
+    
     return self._data[name]
   
   def verify(self, public_key):
-- 
2.43.0


From eb4c32ead62ff30a3c3b01576f0f9e627c07f51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 47/83] fix: alerts with sub-versions can be printed on Python
 3

---
 nbc/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index 2528167..e0c5703 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -409,7 +409,7 @@ class Alert(Message):
     return util.ecc.verify(self.payload, public_key, self.signature)
   
   def __str__(self):
-    return '<message.Alert version=%d relay_until=%d expiration=%d id=%d cancel=%d cancel_set=[%s] min_ver=%d maxver=%d set_sub_ver=[%s] priority=%s comment=%r status_bar=%r reserverd=%r>' % (self.version, self.relay_until, self.expiration, self.id, self.cancel, ", ".join(str(i) for i in self.set_cancel), self.min_ver, self.max_ver, ", ".join(self.set_sub_ver), self.priority, self.comment, self.status_bar, self.reserved)
+    return '<message.Alert version=%d relay_until=%d expiration=%d id=%d cancel=%d cancel_set=[%s] min_ver=%d maxver=%d set_sub_ver=[%s] priority=%s comment=%r status_bar=%r reserverd=%r>' % (self.version, self.relay_until, self.expiration, self.id, self.cancel, ", ".join(str(i) for i in self.set_cancel), self.min_ver, self.max_ver, ", ".join(str(i) for i in self.set_sub_ver), self.priority, self.comment, self.status_bar, self.reserved)
   
   def _debug(self):
     return _debug(self, [('s', self.status_bar)])
-- 
2.43.0


From 2f394027509d95e8736e8f54f13ee01b67a45516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 48/83] fix: a message that cannot be printed is still handled
 and sent

str() of a received message can raise (an alert with a cut payload), which
dropped the message when the log level was low.
---
 nbc/node/connection.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 513510f..36c9990 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -183,12 +183,18 @@ class Connection(asyncore.dispatcher):
       pass
     self.node.disconnected(self)
   
-  def handle_message(self, message):
+  def _log_message(self, prefix, message):
     logLevel = self.node.log_level
-    if logLevel <= self.node.LOG_LEVEL_PROTOCOL:
-      self.node.log('<<< ' + str(message), peer=self, level=logLevel)
-    elif logLevel <= self.node.LOG_LEVEL_DEBUG:
-      self.node.log('<<< ' + message._debug(), peer=self, level=logLevel)
+    try:
+      if logLevel <= self.node.LOG_LEVEL_PROTOCOL:
+        self.node.log(prefix + str(message), peer=self, level=logLevel)
+      elif logLevel <= self.node.LOG_LEVEL_DEBUG:
+        self.node.log(prefix + message._debug(), peer=self, level=logLevel)
+    except Exception as e:  # a message that can not be shown should still be processed
+      self.node.log('%scan not show message: %r' % (prefix,e), peer=self, level=logLevel)
+  
+  def handle_message(self, message):
+    self._log_message('<<< ',message)
     
     kwargs = dict((k,getattr(message,k)) for (k,t) in message.properties)
     if message.command == protocol.Version.command:
@@ -211,12 +217,7 @@ class Connection(asyncore.dispatcher):
         self.node.log('error: method not defined: command_%s' % message.name, peer=self, level=self.node.log_level)
   
   def send_message(self, message):
-    logLevel = self.node.log_level
-    if logLevel <= self.node.LOG_LEVEL_PROTOCOL:
-      self.node.log('>>> ' + str(message), peer=self, level=logLevel)
-    elif logLevel <= self.node.LOG_LEVEL_DEBUG:
-      self.node.log('>>> ' + message._debug(), peer=self, level=logLevel)
-    
+    self._log_message('>>> ',message)
     self._send_buffer += message.binary(self.node.coin.magic)
   
   def __hash__(self):
-- 
2.43.0


From 0e5d1d968a6cee9171aad00781174cdd94709e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 49/83] fix: comparing connections no longer recurses for ever

---
 nbc/node/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 36c9990..31a78a2 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -224,7 +224,7 @@ class Connection(asyncore.dispatcher):
     return hash(self.address)
 
   def __eq__(self, other):
-    return self == other
+    return self is other
   
   def __str__(self):
     return '<Connection(%s) %s:%d>' % (self._fileno,self.ip,self.port)
-- 
2.43.0


From 823461fc2d5706ec6ee89b6cef3618e4e7203358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 50/83] fix: Connection.timestamp is when the peer was last
 heard, not an age

The address book stores it next to the timestamps announced by peers and
shares it in address messages, sorted by it.
---
 nbc/node/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 31a78a2..9a92512 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -93,7 +93,7 @@ class Connection(asyncore.dispatcher):
   banscore = property(lambda s: s._banscore)
   
   # last time we heard from remote
-  timestamp = property(lambda s: (time.time() - s._last_rx_time))
+  timestamp = property(lambda s: s._last_rx_time)
   
   def add_banscore(self, penalty=1):
     self._banscore += penalty
-- 
2.43.0


From cc423730d987e7a09f0290cef61ccba5dd6e4faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 51/83] fix: a connection that cannot be greeted is closed and
 keeps the listener alive

When building the version message failed, the half-open connection stayed in
the peer table; for an accepted one the error also closed the listener.
---
 nbc/node/basenode.py   |  6 +++++-
 nbc/node/connection.py | 24 ++++++++++++++----------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index c5c941b..dc9c285 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -263,7 +263,11 @@ class BaseNode(asyncore.dispatcher, object):
       sock.close()
       return
     
-    connection.Connection(node=self,sock=sock,address=address) # asyncore will keep a reference in map for us
+    try:
+      connection.Connection(node=self,sock=sock,address=address) # asyncore will keep a reference in map for us
+    except Exception as e: # losing one peer should not stop listening
+      sock.close()
+      self.log('can not serve %r: %s' % (address,e),level=self.LOG_LEVEL_ERROR)
   
   def readable(self):
     return True
diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 9a92512..d2bb838 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -59,16 +59,20 @@ class Connection(asyncore.dispatcher):
     
     # bootstrap communication with the node by broadcasting ver
     now = time.time()
-    message = protocol.Version( version = node.coin.protocol_version,
-                services = self.SERVICES,
-                timestamp = now,
-                addr_recv = protocol.NetworkAddress(now,self.SERVICES,address[0],address[1]),
-                addr_from = protocol.NetworkAddress(now,self.SERVICES,node.external_ip,node.port),
-                nonce = os.urandom(8),
-                user_agent = node.user_agent,
-                start_height = node.blockchain_height,
-                relay = False )
-    self.send_message(message)
+    try:
+      message = protocol.Version( version = node.coin.protocol_version,
+                  services = self.SERVICES,
+                  timestamp = now,
+                  addr_recv = protocol.NetworkAddress(now,self.SERVICES,address[0],address[1]),
+                  addr_from = protocol.NetworkAddress(now,self.SERVICES,node.external_ip,node.port),
+                  nonce = os.urandom(8),
+                  user_agent = node.user_agent,
+                  start_height = node.blockchain_height,
+                  relay = False )
+      self.send_message(message)
+    except Exception as e:  # can not greet the peer, do not stay in the map half-open
+      self.handle_close()
+      raise e
   
   # remote node details
   address = property(lambda s: s._address)
-- 
2.43.0


From 71a616df82a4c2d37dd486e16a25597008af2095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 52/83] fix: a closed connection drops its queued data

readable() closes idle peers inside asyncore.poll(); with data still queued
the closed descriptor was then passed to select(), which ended the loop.
---
 nbc/node/connection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index d2bb838..12718eb 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -185,6 +185,7 @@ class Connection(asyncore.dispatcher):
       self.close()
     except Exception as e:
       pass
+    self._send_buffer = b''  # nothing more can be sent, do not ask select() to write
     self.node.disconnected(self)
   
   def _log_message(self, prefix, message):
-- 
2.43.0


From a3da9359f7ad53ddcb6b0cb54737a4a70b6b9c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 53/83] fix: messages buffered behind a disconnect are not
 handled

After a handler closed the connection (a punished peer) the rest of the buffer
was still processed; its verack put the closed peer back in the address book.
---
 nbc/node/connection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 12718eb..6c1a6ae 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -26,6 +26,7 @@ class Connection(asyncore.dispatcher):
     self._recv_buffer = b''   # receive buffer
     self._tx_bytes = 0
     self._rx_bytes = 0
+    self._closed = False
     
     self._last_tx_time = 0
     self._last_ping_time = 0
@@ -138,8 +139,8 @@ class Connection(asyncore.dispatcher):
     self.node._rx_bytes += len(chunk)
     self._last_rx_time = time.time()
     
-    # process as many messages
-    while True:
+    # process as many messages, until a handler closes this connection
+    while not self._closed:
       length = protocol.Message.first_msg_len(self._recv_buffer)
       if length is None or length > len(self._recv_buffer):
         break  # not enough bytes for next message
@@ -185,6 +186,8 @@ class Connection(asyncore.dispatcher):
       self.close()
     except Exception as e:
       pass
+    self._closed = True
+    self._recv_buffer = b''
     self._send_buffer = b''  # nothing more can be sent, do not ask select() to write
     self.node.disconnected(self)
   
-- 
2.43.0


From 96823a63854895c073462db4218a707549181973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 54/83] fix: a read event without data does not close the
 connection

When a descriptor is closed and reused within one poll, the new connection is
asked to read although nothing arrived yet.
---
 nbc/node/connection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 6c1a6ae..0079f79 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -1,5 +1,6 @@
 
 import asyncore
+import errno
 import os
 import socket
 import sys
@@ -128,6 +129,8 @@ class Connection(asyncore.dispatcher):
     try:
       chunk = self.recv(BLOCK_SIZE)
     except Exception as e:
+      if getattr(e,'errno',None) in (errno.EAGAIN,errno.EWOULDBLOCK):
+        return     # woken up without data, the connection is still good
       chunk = ''
     
     if not chunk:  # remote connection closed
-- 
2.43.0


From e9608471c9c97b30f04607c4117ec46545d5cc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 55/83] fix: a peer that never sends anything is dropped after
 three hours too

---
 nbc/node/connection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 0079f79..cb733c0 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -32,6 +32,7 @@ class Connection(asyncore.dispatcher):
     self._last_tx_time = 0
     self._last_ping_time = 0
     self._last_rx_time = 0
+    self._start_time = time.time()
     
     # remote node details
     self._address = address
@@ -110,7 +111,7 @@ class Connection(asyncore.dispatcher):
   
   def readable(self):
     now = time.time()
-    rx_ago = now - self._last_rx_time
+    rx_ago = now - (self._last_rx_time or self._start_time)
     tx_ago = now - self._last_tx_time
     ping_ago = now - self._last_ping_time
     
@@ -120,7 +121,7 @@ class Connection(asyncore.dispatcher):
       self._last_ping_time = time.time()
     
     # it's been over 3 hours, just disconnect
-    if self._last_rx_time and rx_ago > _SECONDS_OF_180M:
+    if rx_ago > _SECONDS_OF_180M:
       self.handle_close()
       return False
     return True
-- 
2.43.0


From 439af81daba8f4e94fa4c8bfd1ff53471101531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 56/83] fix: address requests are answered on Python 3

sorted() takes no comparison function there, every getaddr raised TypeError.
---
 nbc/node/basenode.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index dc9c285..5d95ad4 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -330,11 +330,8 @@ class BaseNode(asyncore.dispatcher, object):
       self._addresses[peer.address] = (peer.timestamp, peer.services)
   
   def command_get_address(self, peer):
-    def sortAddr(a,b):
-      return cmp(self._addresses[b][0],self._addresses[a][0]) # by timestamp and with decrease
-    
     addresses = []
-    for address in sorted(self._addresses,sortAddr):  # add the most recent peers
+    for address in sorted(self._addresses,key=lambda a: self._addresses[a][0],reverse=True):  # add the most recent peers
       (timestamp, services) = self._addresses[address]
       if services is None: continue
       
-- 
2.43.0


From 9b6e1218c94d4e528001df2939ddfc10d5d0859a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 57/83] fix: a banned host is refused

punish_peer() bans by host, handle_accept() looked up (host,port).
---
 nbc/node/basenode.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 5d95ad4..8b3abe8 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -253,11 +253,12 @@ class BaseNode(asyncore.dispatcher, object):
     (sock,address) = pair
     print('Incoming connection from %s' % repr(address))
     
-    if address in self._banned:
-      if time.time() - self._banned[address] < 3600:
+    host = address[0]
+    if host in self._banned:
+      if time.time() - self._banned[host] < 3600:
         sock.close()            # banned it within one hour
         return
-      del self._banned[address] # else, ignore early banned list
+      del self._banned[host]    # else, ignore early banned list
     
     if not self._listen: # if not accepting incoming, drop it
       sock.close()
-- 
2.43.0


From 78d58acaf797a55767a69597dca309cee670a369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 58/83] fix: the address book holds at most MAX_ADDRESSES and
 keeps learning known ones

One more than the limit was stored, and then even news about known addresses
were ignored.
---
 nbc/node/basenode.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 8b3abe8..e3be8ed 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -327,7 +327,7 @@ class BaseNode(asyncore.dispatcher, object):
     peer.send_message(protocol.VersionAck())
   
   def command_version_ack(self, peer): # a peer acknowledged us, record address
-    if len(self._addresses) < MAX_ADDRESSES:
+    if peer.address in self._addresses or len(self._addresses) < MAX_ADDRESSES:
       self._addresses[peer.address] = (peer.timestamp, peer.services)
   
   def command_get_address(self, peer):
@@ -344,8 +344,9 @@ class BaseNode(asyncore.dispatcher, object):
   
   def command_address(self, peer, addr_list):
     for address in addr_list:
-      if len(self._addresses) > MAX_ADDRESSES: return
-      self._addresses[(address.address,address.port)] = (address.timestamp,address.services)
+      key = (address.address,address.port)
+      if key not in self._addresses and len(self._addresses) >= MAX_ADDRESSES: continue
+      self._addresses[key] = (address.timestamp,address.services)
 
 def startServer(node):
   ts = Thread(target=node.serve_forever)
-- 
2.43.0


From 077d775954deb6b12c8508f5d7d7f5f6bba69976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 59/83] fix: a byte-string subclass accepted as text field can
 be serialised

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 345664d..6304591 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -375,7 +375,7 @@ class FtVarString(FormatType):
   
   @staticmethod
   def binary(obj):
-    if type(obj) == bytes:
+    if isinstance(obj,bytes):
       pass
     else: obj = obj.encode('latin-1') # for python3
     return FtVarInteger.binary(len(obj)) + obj
-- 
2.43.0


From eaa268ebe8a2d214577b18df0ff1dfbc016ce10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 60/83] fix: a node on a random port learns its address on
 every asyncore

---
 nbc/node/basenode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index e3be8ed..cbaf3a8 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -79,7 +79,7 @@ class BaseNode(asyncore.dispatcher, object):
       self.listen(5)
       
       if address[1] == 0: # if bound to a random port, keep track
-        self._address = self.getsockname()
+        self._address = self.socket.getsockname()
     except socket.error as e:  # port in use... Maybe already running
       if e.errno == 48:
         raise AddrInUseError()
-- 
2.43.0


From 8f5aeee6a1043f6f5c48acf9add84c2a49a10502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 61/83] fix: a log line with characters the log can not show
 stopped the event loop

---
 nbc/node/basenode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index cbaf3a8..7d700a5 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -122,7 +122,10 @@ class BaseNode(asyncore.dispatcher, object):
       source = peer.address[0]
     else: source = 'node'
     message = '(%s) %s' % (source, message)
-    print_(message,file=self._log)
+    try:
+      print_(message,file=self._log)
+    except UnicodeError:  # the log can not show some characters, losing the loop is worse
+      print_(message.encode('ascii','backslashreplace').decode('ascii'),file=self._log)
   
   def serve_forever(self):
     if self._listen:
-- 
2.43.0


From a4d475968c7872a16f9d56c3b96b0cdb6ef83e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 62/83] fix: a listening node serves on platforms without
 miniupnpc

---
 nbc/node/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index 5388a01..6833a02 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -18,9 +18,9 @@ def _init_upnp():
   global _upnp
   if _upnp: return _upnp
   
-  u = miniupnpc.UPnP()
-  u.discoverdelay = 200
   try:
+    u = miniupnpc.UPnP()  # there is none on every platform
+    u.discoverdelay = 200
     print('discovering... delay = %ums' % u.discoverdelay)
     devices = u.discover()
     print('%u device(s) detected' % devices)
-- 
2.43.0


From 75379359b382a73620536da5c3e9ab91695d22ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 63/83] fix: the search for a free external port ends at 65535
 and takes no used one

---
 nbc/node/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index 6833a02..95f07b5 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -43,9 +43,12 @@ def add_portmap(port, proto, label=''):
     # find a free port for the redirection
     eport = port
     r = u.getspecificportmapping(eport,proto)
-    while r != None and eport < 65536:
+    while r != None and eport < 65535:
       eport = eport + 1
       r = u.getspecificportmapping(eport,proto)
+    if r != None:
+      print('!! no free external port')
+      return
     b = u.addportmapping(eport,proto,u.lanaddr,port,label,'')
     if b:
       print('success! now waiting for %s request on %s:%u' % (proto,extAddr,eport))
-- 
2.43.0


From 44707d57795022c43333b6edc3eda90007126531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 64/83] fix: stopping a node removes the port mapping it made
 and no other

---
 nbc/node/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index 95f07b5..4662483 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -13,6 +13,7 @@ class AddrInUseError(Exception): pass
 class StopNode(Exception): pass
 
 _upnp = None
+_portmaps = {}  # (port, proto) -> external port of the mappings made by add_portmap
 
 def _init_upnp():
   global _upnp
@@ -51,6 +52,7 @@ def add_portmap(port, proto, label=''):
       return
     b = u.addportmapping(eport,proto,u.lanaddr,port,label,'')
     if b:
+      _portmaps[(port,proto)] = eport
       print('success! now waiting for %s request on %s:%u' % (proto,extAddr,eport))
       return u
     else:
@@ -59,9 +61,10 @@ def add_portmap(port, proto, label=''):
     print('!! meet Exception: %s' % e)
 
 def remove_portmap(port, proto):
-  if not _upnp: return
+  eport = _portmaps.pop((port,proto),None)
+  if eport is None: return
   try:
-    b = _upnp.deleteportmapping(port,proto)
+    b = _upnp.deleteportmapping(eport,proto)
     if b:
       print('successfully deleted port mapping')
     else:
-- 
2.43.0


From 5796dcb1a394d3b9604039323b2f75f6f88217a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 65/83] fix: a log that can not be written stopped the event
 loop

---
 nbc/node/basenode.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 7d700a5..3208734 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -123,9 +123,12 @@ class BaseNode(asyncore.dispatcher, object):
     else: source = 'node'
     message = '(%s) %s' % (source, message)
     try:
-      print_(message,file=self._log)
-    except UnicodeError:  # the log can not show some characters, losing the loop is worse
-      print_(message.encode('ascii','backslashreplace').decode('ascii'),file=self._log)
+      try:
+        print_(message,file=self._log)
+      except UnicodeError:  # the log can not show some characters, losing the loop is worse
+        print_(message.encode('ascii','backslashreplace').decode('ascii'),file=self._log)
+    except (EnvironmentError,ValueError):  # so is losing it to a full disk or a closed log
+      pass
   
   def serve_forever(self):
     if self._listen:
-- 
2.43.0


From 1ce61e810af2e33fe68fc01154704c7572f408b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 66/83] fix: a block built with a float timestamp can be shown
 at debug level

---
 nbc/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index e0c5703..0474840 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -223,7 +223,7 @@ class Block(Message):
   
   def _debug(self):
     block_hash = util.get_block_header(self.version, self.prev_block,
-      self.merkle_root, self.timestamp, self.bits, self.nonce)
+      self.merkle_root, int(self.timestamp), self.bits, self.nonce)
     return _debug(self, [('h', hexlify(block_hash)), ('t', self.txns)])
 
 class Headers(Message):
-- 
2.43.0


From 9cd2d7da3ce5dd5a82940db2f6c7eae4dc5859e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 67/83] fix: messages sent from another thread while the loop
 writes are neither lost nor repeated

---
 nbc/node/connection.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index cb733c0..8fb2678 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -4,6 +4,7 @@ import errno
 import os
 import socket
 import sys
+import threading
 import time
 import traceback
 
@@ -23,6 +24,7 @@ class Connection(asyncore.dispatcher):
   
   def __init__(self, node, address, sock=None):
     self._node = node
+    self._send_lock = threading.Lock() # the application may send while the event loop writes
     self._send_buffer = b''   # send buffer
     self._recv_buffer = b''   # receive buffer
     self._tx_bytes = 0
@@ -174,7 +176,8 @@ class Connection(asyncore.dispatcher):
     except Exception as e:
       self.handle_close()
       return
-    self._send_buffer = self._send_buffer[sent:]
+    with self._send_lock:
+      self._send_buffer = self._send_buffer[sent:]
   
   def handle_error(self):
     t,v,tb = sys.exc_info()
@@ -192,7 +195,8 @@ class Connection(asyncore.dispatcher):
       pass
     self._closed = True
     self._recv_buffer = b''
-    self._send_buffer = b''  # nothing more can be sent, do not ask select() to write
+    with self._send_lock:
+      self._send_buffer = b''  # nothing more can be sent, do not ask select() to write
     self.node.disconnected(self)
   
   def _log_message(self, prefix, message):
@@ -230,7 +234,9 @@ class Connection(asyncore.dispatcher):
   
   def send_message(self, message):
     self._log_message('>>> ',message)
-    self._send_buffer += message.binary(self.node.coin.magic)
+    data = message.binary(self.node.coin.magic)
+    with self._send_lock:
+      self._send_buffer += data
   
   def __hash__(self):
     return hash(self.address)
-- 
2.43.0


From 8bd9d7296002eb2ac974a3addd56c2e2af787100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 68/83] fix: listing the peers from another thread while they
 come and go does not fail

---
 nbc/node/basenode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 3208734..838f076 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -292,7 +292,7 @@ class BaseNode(asyncore.dispatcher, object):
     return self._peers.items()
   
   def values(self):
-    return self._peers.values()
+    return list(self._peers.values()) # a copy: other threads may look while peers come and go
   
   def keys(self):
     return self._peers.keys()
-- 
2.43.0


From 95be43d2294e4ede4b314cf4d724d5fba9f55938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 69/83] fix: parsing long lists does not copy the rest of the
 payload for every item

---
 nbc/protocol/format.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 6304591..9942e32 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -11,9 +11,13 @@ _IP_HEAD_STR = _ZERO_STR10 + b'\xff\xff'
 def ORD(ch):   # compatible to python3
   return ch if type(ch) == int else ord(ch)
 
+def to_bytes(data):  # fields should not keep a view of the whole payload
+  return data.tobytes() if isinstance(data,memoryview) else data
+
 def parse_var_set(data, kind):
   '''Reads a set of parsable objects prefixed with a VarInteger.'''
   
+  data = memoryview(data)  # a slice of bytes would copy all the rest for every item
   (off, count) = FtVarInteger.parse(data)
   ret = []; index = 0
   while index < count:
@@ -95,12 +99,13 @@ class CompoundType(object):
   def parse(cls, data):
     kw = dict()
     offset = 0
+    data = memoryview(data)  # slices without copying
     for (key, vt) in cls.properties:
       try:
         (length,kw[key]) = vt.parse(data[offset:])
         offset += length
       except Exception as e:
-        raise ParameterError(key,data[offset:],vt)
+        raise ParameterError(key,to_bytes(data[offset:]),vt)
     
     # create without __init__ (would unnecessarily verify the parameters)
     self = cls.__new__(cls)
@@ -322,6 +327,7 @@ class FtIPAddress(FormatType):
   
   @staticmethod
   def parse(data):
+    data = to_bytes(data[:16])
     if data.startswith(_ZERO_STR10) and data[10:12] == (b'\xff\xff'): # ipv4
       return (16, '.'.join(str(i) for i in struct.unpack('>BBBB', data[12:16])))
     return (16, ':'.join(('%x' % i) for i in struct.unpack('>HHHHHHHH', data[:16])))
@@ -352,7 +358,7 @@ class FtBytes(FormatType):
   def parse(self, data):
     if len(data) < self._length:
       raise ValueError('out of data')
-    return (self._length, data[:self._length])
+    return (self._length, to_bytes(data[:self._length]))
   
   def str(self, obj):
     return '0x' + hexlify(obj).decode('ascii')
@@ -382,11 +388,11 @@ class FtVarString(FormatType):
   
   @staticmethod
   def parse(data):
-    if type(data) == bytes:  # bytes == str in python2
+    if isinstance(data,(bytes,memoryview)):  # bytes == str in python2
       pass
     else: data = data.encode('latin-1') # for python3
     (vl,length) = FtVarInteger.parse(data)
-    obj = data[vl:vl+length]
+    obj = to_bytes(data[vl:vl+length])
     if len(obj) != length:
       raise ValueError('out of data')
     return (vl + len(obj), obj)
@@ -440,7 +446,7 @@ class FtNetworkAddress(FtCompoundType):
 class FtNetworkAddressNoTimestamp(FtNetworkAddress):
   @classmethod
   def parse(cls, data):
-    (vl,obj) = FtNetworkAddress.parse(b'\x00\x00\x00\x00' + data) # timestamp will be 0
+    (vl,obj) = FtNetworkAddress.parse(b'\x00\x00\x00\x00' + to_bytes(data[:26])) # timestamp will be 0
     return (vl - 4, obj)
   
   def binary(self, obj):
-- 
2.43.0


From aafc882a6dc2a4ff3c22e4aada87e730f024a322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 70/83] fix: receiving a large message does not copy all that
 has arrived of it for every packet

---
 nbc/node/connection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 8fb2678..875668c 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -26,7 +26,7 @@ class Connection(asyncore.dispatcher):
     self._node = node
     self._send_lock = threading.Lock() # the application may send while the event loop writes
     self._send_buffer = b''   # send buffer
-    self._recv_buffer = b''   # receive buffer
+    self._recv_buffer = bytearray() # receive buffer, grows and shrinks without copying the rest
     self._tx_bytes = 0
     self._rx_bytes = 0
     self._closed = False
@@ -152,8 +152,8 @@ class Connection(asyncore.dispatcher):
         break  # not enough bytes for next message
       
       # parse the message and handle it
-      payload = self._recv_buffer[:length]
-      self._recv_buffer = self._recv_buffer[length:]  # remove one message
+      payload = bytes(self._recv_buffer[:length])
+      del self._recv_buffer[:length]  # remove one message
       try:
         message = protocol.Message.parse(payload,self.node.coin.magic)
         self.handle_message(message)
@@ -194,7 +194,7 @@ class Connection(asyncore.dispatcher):
     except Exception as e:
       pass
     self._closed = True
-    self._recv_buffer = b''
+    self._recv_buffer = bytearray()
     with self._send_lock:
       self._send_buffer = b''  # nothing more can be sent, do not ask select() to write
     self.node.disconnected(self)
-- 
2.43.0


From ae3c1fa84e044fe5d1f7469ca8af8a8913f0e760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 71/83] fix: queueing and sending messages does not copy all
 that waits to be sent each time

---
 nbc/node/connection.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 875668c..b02bd0b 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -12,6 +12,7 @@ from .. import util
 from .. import protocol
 
 BLOCK_SIZE = 8192             # one receive block size
+SEND_SIZE  = 65536            # most bytes offered to the socket at a time
 
 _SECONDS_OF_30M  = 30 * 60    #  30 Minutes * 60
 _SECONDS_OF_5M   = 5 * 60     #   5 Minutes * 60
@@ -25,7 +26,7 @@ class Connection(asyncore.dispatcher):
   def __init__(self, node, address, sock=None):
     self._node = node
     self._send_lock = threading.Lock() # the application may send while the event loop writes
-    self._send_buffer = b''   # send buffer
+    self._send_buffer = bytearray() # send buffer, grows and shrinks without copying the rest
     self._recv_buffer = bytearray() # receive buffer, grows and shrinks without copying the rest
     self._tx_bytes = 0
     self._rx_bytes = 0
@@ -169,7 +170,9 @@ class Connection(asyncore.dispatcher):
   
   def handle_write(self):
     try:
-      sent = self.send(self._send_buffer)
+      with self._send_lock:
+        chunk = bytes(self._send_buffer[:SEND_SIZE])
+      sent = self.send(chunk)
       self._tx_bytes += sent
       self.node._tx_bytes += sent
       self._last_tx_time = time.time()
@@ -177,7 +180,7 @@ class Connection(asyncore.dispatcher):
       self.handle_close()
       return
     with self._send_lock:
-      self._send_buffer = self._send_buffer[sent:]
+      del self._send_buffer[:sent]
   
   def handle_error(self):
     t,v,tb = sys.exc_info()
@@ -196,7 +199,7 @@ class Connection(asyncore.dispatcher):
     self._closed = True
     self._recv_buffer = bytearray()
     with self._send_lock:
-      self._send_buffer = b''  # nothing more can be sent, do not ask select() to write
+      self._send_buffer = bytearray()  # nothing more can be sent, do not ask select() to write
     self.node.disconnected(self)
   
   def _log_message(self, prefix, message):
-- 
2.43.0


From b025cdf945e17650c708e4ae5e7e42a616a91b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 72/83] fix: a wallet file with a cut public key or parent
 fingerprint loaded as another wallet

---
 nbc/wallet/hdwallet.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 178cde2..983a5b3 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -28,6 +28,7 @@ def point_compress(point):
   return CHR(2 + (y & 1)) + number_to_string(x,curve.p())
 
 def point_decompress(curve, data):
+  if len(data) != 33: raise ValueError('invalid public key')
   prefix = data[0]; ch = ORD(prefix)
   assert(ch in (2,3))  # data[0] should be b'\x02' or b'\x03'
   
@@ -286,9 +287,12 @@ class HDWallet(object):
     elif pubKey:
       pubKey = point_decompress(curve.curve,unhexlify(pubKey))
     
+    parentfp = unhexlify(cfg['parentfp'])
+    if len(parentfp) != 4: raise ValueError('invalid fingerprint of parent')
+    
     return HDWallet( prvKey or pubKey, unhexlify(cfg['chain']), vcn=cfg['vcn'],
       testnet=cfg['testnet'], depth=cfg['depth'],
-      childnum=cfg['childnum'], parentfp=unhexlify(cfg['parentfp']) )
+      childnum=cfg['childnum'], parentfp=parentfp )
   
   def __str__(self):
     privateKey = 'None'
-- 
2.43.0


From 8992981a9f38f40d7bb46bdb71d76ea1e0f6d2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:47 +0000
Subject: [PATCH 73/83] fix: saving a wallet made its key readable by every
 user for a moment, whatever the permissions of the wallet file

---
 nbc/wallet/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nbc/wallet/__init__.py b/nbc/wallet/__init__.py
index a2039aa..fd3e42a 100644
--- a/nbc/wallet/__init__.py
+++ b/nbc/wallet/__init__.py
@@ -13,7 +13,9 @@ def saveTo(fileName, wallet, passphrase=''):
   fileName = os.path.realpath(fileName)
   tmpName = '%s.%s.tmp' % (fileName,uuid.uuid4().hex)
   try:
-    with open(tmpName,'w') as f:
+    # the copy holds the key too, so nobody who can not read the wallet may read it
+    mode = os.stat(fileName).st_mode & 0o777 if os.path.exists(fileName) else 0o666
+    with os.fdopen(os.open(tmpName,os.O_WRONLY | os.O_CREAT | os.O_EXCL,mode),'w') as f:
       f.write(sCfg)
       f.flush()
       os.fsync(f.fileno())
-- 
2.43.0


From 3fec708057b8d51e2feae0dd164bd4a3ab8cf65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 74/83] fix: under python -O malformed keys, checksums, points
 and wallet files were accepted

The checks were assert statements, which an optimised interpreter drops.
---
 nbc/util/ecdsa/der.py           | 10 +++++-----
 nbc/util/ecdsa/ecdsa.py         |  2 +-
 nbc/util/ecdsa/ellipticcurve.py | 10 +++++-----
 nbc/util/ecdsa/keys.py          | 19 +++++++++----------
 nbc/util/ecdsa/numbertheory.py  | 18 +++++++++---------
 nbc/util/ecdsa/util.py          | 20 ++++++++++----------
 nbc/wallet/address.py           |  4 ++--
 nbc/wallet/hdwallet.py          | 18 +++++++++---------
 8 files changed, 50 insertions(+), 51 deletions(-)

diff --git a/nbc/util/ecdsa/der.py b/nbc/util/ecdsa/der.py
index f7d3470..8dc3a3d 100644
--- a/nbc/util/ecdsa/der.py
+++ b/nbc/util/ecdsa/der.py
@@ -10,7 +10,7 @@ class UnexpectedDER(Exception):
 def encode_constructed(tag, value):
     return int2byte(0xa0+tag) + encode_length(len(value)) + value
 def encode_integer(r):
-    assert r >= 0 # can't support negative numbers yet
+    if r < 0: raise ValueError("negative integers are not supported")
     h = ("%x" % r).encode()
     if len(h) % 2:
         h = b("0") + h
@@ -29,8 +29,8 @@ def encode_bitstring(s):
 def encode_octet_string(s):
     return b("\x04") + encode_length(len(s)) + s
 def encode_oid(first, second, *pieces):
-    assert first <= 2
-    assert second <= 39
+    if first > 2: raise ValueError("invalid OID")
+    if second > 39: raise ValueError("invalid OID")
     encoded_pieces = [int2byte(40*first+second)] + [encode_number(p)
                                                     for p in pieces]
     body = b('').join(encoded_pieces)
@@ -117,7 +117,7 @@ def remove_integer(string):
     # added by RicMoo for pycoind
     #if nbytes < 0x80:
     #    return -int(binascii.hexlify(numberbytes), 16), rest
-    assert nbytes < 0x80 # can't support negative numbers yet
+    if nbytes >= 0x80: raise ValueError("negative integers are not supported")
     return int(binascii.hexlify(numberbytes), 16), rest
 
 def read_number(string):
@@ -136,7 +136,7 @@ def read_number(string):
     return number, llen
 
 def encode_length(l):
-    assert l >= 0
+    if l < 0: raise ValueError("negative length")
     if l < 0x80:
         return int2byte(l)
     s = ("%x" % l).encode()
diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index f7d54de..4625ab2 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -156,7 +156,7 @@ class Private_key( object ):
 
 def int_to_string( x ):
   """Convert integer x into a string of bytes, as per X9.62."""
-  assert x >= 0
+  if x < 0: raise ValueError("negative number")
   if x == 0: return b('\0')
   result = []
   while x:
diff --git a/nbc/util/ecdsa/ellipticcurve.py b/nbc/util/ecdsa/ellipticcurve.py
index 01b2a79..d6dedfb 100644
--- a/nbc/util/ecdsa/ellipticcurve.py
+++ b/nbc/util/ecdsa/ellipticcurve.py
@@ -70,8 +70,8 @@ class Point( object ):
     self.__y = y
     self.__order = order
     # self.curve is allowed to be None only for INFINITY:
-    if self.__curve: assert self.__curve.contains_point( x, y )
-    if order: assert self * order == INFINITY
+    if self.__curve and not self.__curve.contains_point( x, y ): raise ValueError("point is not on the curve")
+    if order and not ( self * order == INFINITY ): raise ValueError("point is not of the given order")
 
   def __eq__( self, other ):
     """Return True if the points are identical, False otherwise."""
@@ -89,7 +89,7 @@ class Point( object ):
 
     if other == INFINITY: return self
     if self == INFINITY: return other
-    assert self.__curve == other.__curve
+    if self.__curve != other.__curve: raise ValueError("points of different curves")
     if self.__x == other.__x:
       if ( self.__y + other.__y ) % self.__curve.p() == 0:
         return INFINITY
@@ -110,7 +110,7 @@ class Point( object ):
     """Multiply a point by an integer."""
 
     def leftmost_bit( x ):
-      assert x > 0
+      if x <= 0: raise ValueError("multiplier must be positive")
       result = 1
       while result <= x: result = 2 * result
       return result // 2
@@ -119,7 +119,7 @@ class Point( object ):
     if self.__order: e = e % self.__order
     if e == 0: return INFINITY
     if self == INFINITY: return INFINITY
-    assert e > 0
+    if e <= 0: raise ValueError("multiplier must not be negative")
 
     # From X9.62 D.3.2:
 
diff --git a/nbc/util/ecdsa/keys.py b/nbc/util/ecdsa/keys.py
index 1ec4fc5..64be52e 100644
--- a/nbc/util/ecdsa/keys.py
+++ b/nbc/util/ecdsa/keys.py
@@ -33,16 +33,15 @@ class VerifyingKey:
     def from_string(klass, string, curve=NIST192p, hashfunc=sha1,
                     validate_point=True):
         order = curve.order
-        assert len(string) == curve.verifying_key_length, \
-               (len(string), curve.verifying_key_length)
+        if len(string) != curve.verifying_key_length: raise ValueError("invalid length of public key")
         xs = string[:curve.baselen]
         ys = string[curve.baselen:]
-        assert len(xs) == curve.baselen, (len(xs), curve.baselen)
-        assert len(ys) == curve.baselen, (len(ys), curve.baselen)
+        if len(xs) != curve.baselen: raise ValueError("invalid length of public key")
+        if len(ys) != curve.baselen: raise ValueError("invalid length of public key")
         x = string_to_number(xs)
         y = string_to_number(ys)
         if validate_point:
-            assert ecdsa.point_is_valid(curve.generator, x, y)
+            if not ecdsa.point_is_valid(curve.generator, x, y): raise ValueError("invalid public key")
         from . import ellipticcurve
         point = ellipticcurve.Point(curve.curve, x, y, order)
         return klass.from_public_point(point, curve, hashfunc)
@@ -65,13 +64,13 @@ class VerifyingKey:
         if empty != b(""):
             raise der.UnexpectedDER("trailing junk after DER pubkey objects: %s" %
                                     binascii.hexlify(empty))
-        assert oid_pk == oid_ecPublicKey, (oid_pk, oid_ecPublicKey)
+        if oid_pk != oid_ecPublicKey: raise ValueError("not an EC public key")
         curve = find_curve(oid_curve)
         point_str, empty = der.remove_bitstring(point_str_bitstring)
         if empty != b(""):
             raise der.UnexpectedDER("trailing junk after pubkey pointstring: %s" %
                                     binascii.hexlify(empty))
-        assert point_str.startswith(b("\x00\x04"))
+        if not point_str.startswith(b("\x00\x04")): raise ValueError("not an uncompressed public key")
         return klass.from_string(point_str[2:], curve)
 
     def to_string(self):
@@ -134,7 +133,7 @@ class SigningKey:
         self.default_hashfunc = hashfunc
         self.baselen = curve.baselen
         n = curve.order
-        assert 1 <= secexp < n
+        if not (1 <= secexp < n): raise ValueError("private key out of range")
         pubkey_point = curve.generator*secexp
         pubkey = ecdsa.Public_key(curve.generator, pubkey_point)
         pubkey.order = n
@@ -146,7 +145,7 @@ class SigningKey:
 
     @classmethod
     def from_string(klass, string, curve=NIST192p, hashfunc=sha1):
-        assert len(string) == curve.baselen, (len(string), curve.baselen)
+        if len(string) != curve.baselen: raise ValueError("invalid length of private key")
         secexp = string_to_number(string)
         return klass.from_secret_exponent(secexp, curve, hashfunc)
 
@@ -278,6 +277,6 @@ class SigningKey:
         else:
             _k = randrange(order, entropy)
 
-        assert 1 <= _k < order
+        if not (1 <= _k < order): raise ValueError("k out of range")
         sig = self.privkey.sign(number, _k)
         return sig.r, sig.s
diff --git a/nbc/util/ecdsa/numbertheory.py b/nbc/util/ecdsa/numbertheory.py
index fd6372b..25600c8 100644
--- a/nbc/util/ecdsa/numbertheory.py
+++ b/nbc/util/ecdsa/numbertheory.py
@@ -104,7 +104,7 @@ def polynomial_exp_mod( base, exponent, polymod, p ):
   # This module has been tested only by extensive use
   # in calculating modular square roots.
 
-  assert exponent < p
+  if exponent >= p: raise ValueError("exponent out of range")
 
   if exponent == 0: return [ 1 ]
 
@@ -131,8 +131,8 @@ def jacobi( a, n ):
   # table printed in HAC, and by extensive use in calculating
   # modular square roots.
 
-  assert n >= 3
-  assert n%2 == 1
+  if n < 3: raise ValueError("modulus must be at least 3")
+  if n%2 != 1: raise ValueError("modulus must be odd")
   a = a % n
   if a == 0: return 0
   if a == 1: return 1
@@ -155,8 +155,8 @@ def square_root_mod_prime( a, p ):
   # This module has been tested for all values in [0,p-1] for
   # every prime p from 3 to 1229.
 
-  assert 0 <= a < p
-  assert 1 < p
+  if not (0 <= a < p): raise ValueError("number out of range")
+  if 1 >= p: raise ValueError("invalid modulus")
 
   if a == 0: return 0
   if p == 2: return a
@@ -197,7 +197,7 @@ def inverse_mod( a, m ):
   # At this point, d is the GCD, and ud*a+vd*m = d.
   # If d == 1, this means that ud is a inverse.
 
-  assert d == 1
+  if d != 1: raise ValueError("number has no inverse")
   if ud > 0: return ud
   else: return ud + m
 
@@ -243,7 +243,7 @@ def lcm( *a ):
 def factorization( n ):
   """Decompose n into a list of (prime,exponent) pairs."""
 
-  assert isinstance( n, integer_types )
+  if not isinstance( n, integer_types ): raise TypeError("not an integer")
 
   if n < 2: return []
 
@@ -294,7 +294,7 @@ def factorization( n ):
 def phi( n ):
   """Return the Euler totient function of n."""
 
-  assert isinstance( n, integer_types )
+  if not isinstance( n, integer_types ): raise TypeError("not an integer")
 
   if n < 3: return 1
 
@@ -351,7 +351,7 @@ def order_mod( x, m ):
 
   if m <= 1: return 0
 
-  assert gcd( x, m ) == 1
+  if gcd( x, m ) != 1: raise ValueError("number and modulus have a common divisor")
 
   z = x % m
   result = 1
diff --git a/nbc/util/ecdsa/util.py b/nbc/util/ecdsa/util.py
index 48407d4..d257480 100644
--- a/nbc/util/ecdsa/util.py
+++ b/nbc/util/ecdsa/util.py
@@ -43,7 +43,7 @@ def randrange(order, entropy=None):
 
     if entropy is None:
         entropy = os.urandom
-    assert order > 1
+    if order <= 1: raise ValueError("invalid order")
     bytes = orderlen(order)
     dont_try_forever = 10000 # gives about 2**-60 failures for worst case
     while dont_try_forever > 0:
@@ -90,7 +90,7 @@ def randrange_from_seed__overshoot_modulo(seed, order):
     # code. There are other choices: try-try-again is the main one.
     base = PRNG(seed)(2*orderlen(order))
     number = (int(binascii.hexlify(base), 16) % (order-1)) + 1
-    assert 1 <= number < order, (1, number, order)
+    if not (1 <= number < order): raise ValueError("number out of range")
     return number
 
 def lsb_of_ones(numbits):
@@ -122,7 +122,7 @@ def randrange_from_seed__truncate_bytes(seed, order, hashmod=sha256):
     base = hashmod(seed).digest()[:bytes]
     base = b("\x00")*(bytes-len(base)) + base
     number = 1+int(binascii.hexlify(base), 16)
-    assert 1 <= number < order
+    if not (1 <= number < order): raise ValueError("number out of range")
     return number
 
 def randrange_from_seed__truncate_bits(seed, order, hashmod=sha256):
@@ -136,7 +136,7 @@ def randrange_from_seed__truncate_bits(seed, order, hashmod=sha256):
     if topbits:
         base = int2byte(ord(base[0:1]) & lsb_of_ones(8-topbits)) + base[1:]
     number = 1+int(binascii.hexlify(base), 16)
-    assert 1 <= number < order
+    if not (1 <= number < order): raise ValueError("number out of range")
     return number
 
 def randrange_from_seed__trytryagain(seed, order):
@@ -146,7 +146,7 @@ def randrange_from_seed__trytryagain(seed, order):
     # high-order bits of the first byte as necessary to get the right number
     # of bits. The average number of loops will range from 1.0 (when
     # order=2**k-1) to 2.0 (when order=2**k+1).
-    assert order > 1
+    if order <= 1: raise ValueError("invalid order")
     bits, bytes, extrabits = bits_and_bytes(order)
     generate = PRNG(seed)
     while True:
@@ -162,7 +162,7 @@ def number_to_string(num, order):
     l = orderlen(order)
     fmt_str = "%0" + str(2*l) + "x"
     string = binascii.unhexlify((fmt_str % num).encode())
-    assert len(string) == l, (len(string), l)
+    if len(string) != l: raise ValueError("number out of range")
     return string
 
 def number_to_string_crop(num, order):
@@ -176,7 +176,7 @@ def string_to_number(string):
 
 def string_to_number_fixedlen(string, order):
     l = orderlen(order)
-    assert len(string) == l, (len(string), l)
+    if len(string) != l: raise ValueError("invalid length")
     return int(binascii.hexlify(string), 16)
 
 # these methods are useful for the sigencode= argument to SK.sign() and the
@@ -218,7 +218,7 @@ def sigencode_der_canonize(r, s, order):
 
 def sigdecode_string(signature, order):
     l = orderlen(order)
-    assert len(signature) == 2*l, (len(signature), 2*l)
+    if len(signature) != 2*l: raise ValueError("invalid length of signature")
     r = string_to_number_fixedlen(signature[:l], order)
     s = string_to_number_fixedlen(signature[l:], order)
     return r, s
@@ -226,8 +226,8 @@ def sigdecode_string(signature, order):
 def sigdecode_strings(rs_strings, order):
     (r_str, s_str) = rs_strings
     l = orderlen(order)
-    assert len(r_str) == l, (len(r_str), l)
-    assert len(s_str) == l, (len(s_str), l)
+    if len(r_str) != l: raise ValueError("invalid length of signature")
+    if len(s_str) != l: raise ValueError("invalid length of signature")
     r = string_to_number_fixedlen(r_str, order)
     s = string_to_number_fixedlen(s_str, order)
     return r, s
diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index 5425d8f..a79ab64 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -65,7 +65,7 @@ class Address(object):
     if privKey:
       if pubKey is not None:
         raise ValueError('cannot specify public and private key both')
-      assert(type(privKey) == bytes)
+      if type(privKey) != bytes: raise ValueError('private key should be bytes')
       
       # this is a compressed private key
       ch = ORD(privKey[0])
@@ -80,7 +80,7 @@ class Address(object):
     else: self._privKey = None
     
     if pubKey:
-      assert(type(pubKey) == bytes)
+      if type(pubKey) != bytes: raise ValueError('public key should be bytes')
       
       ch = ORD(pubKey[0])
       if ch == 4:  # prefix with 0x04 means decompressed
diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 983a5b3..3b1481c 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -30,7 +30,7 @@ def point_compress(point):
 def point_decompress(curve, data):
   if len(data) != 33: raise ValueError('invalid public key')
   prefix = data[0]; ch = ORD(prefix)
-  assert(ch in (2,3))  # data[0] should be b'\x02' or b'\x03'
+  if ch not in (2,3): raise ValueError('invalid public key')  # data[0] should be b'\x02' or b'\x03'
   
   x = string_to_number(data[1:])
   if x >= curve.p(): raise ValueError('invalid public key')
@@ -56,12 +56,12 @@ class HDWallet(object):
     if type(key) == ellipticcurve.Point:        # public key is a point
       self._pubkey = key  
     elif type(key) in integer_types: # private key an integer
-      assert(0 < key < curve.order)
+      if not (0 < key < curve.order): raise ValueError('private key out of range')
       self._prvkey = key
     else:
       raise TypeError('Unknown key type "{0}"'.format(type(key)))
     
-    assert(len(chain) == 32)
+    if len(chain) != 32: raise ValueError('invalid chain code')
     self._chain = chain
     self._testnet = testnet
     
@@ -73,21 +73,21 @@ class HDWallet(object):
       depth = 0
       parentfp = b'\x00' * 4
       childnum = 0
-    assert(depth < 256)
+    if depth >= 256: raise ValueError('invalid depth')
     
     self._depth = depth
     self._parentfp = parentfp
     self._childnum = childnum
   
   def child(self, i):
-    assert(0 <= i <= 2**32-1)
+    if not (0 <= i <= 2**32-1): raise ValueError('child number out of range')
     priv_deriv = (i & 0x80000000) != 0
     
     if (priv_deriv and not self._prvkey):
       raise Exception('Unable to do private derivation')
     
     # only allow up to a depth of 255
-    assert(self._depth < 0xff)
+    if self._depth >= 0xff: raise ValueError('maximum depth reached')
     
     str_i = number_to_string(i,2**32-1)
     
@@ -205,7 +205,7 @@ class HDWallet(object):
     checksum = decoded[78:78+4]
     # validate checksum
     valid_checksum = hashlib.sha256(hashlib.sha256(ekdata).digest()).digest()[:4]
-    assert (checksum == valid_checksum)
+    if checksum != valid_checksum: raise ValueError('invalid checksum')
     
     version = string_to_number(ekdata[0:0+4])
     depth   = string_to_number(ekdata[4:4+1])
@@ -217,10 +217,10 @@ class HDWallet(object):
     testnet = version in (0x043587CF, 0x04358394)
     
     if version in (0x0488B21E, 0x043587CF): # data contains pubkey
-      assert(ORD(data[0]) in (2,3))
+      if ORD(data[0]) not in (2,3): raise ValueError('invalid public key')
       key = point_decompress(curve.curve,data)
     elif version in (0x0488ADE4, 0x04358394): # data contains privkey
-      assert(ORD(data[0]) == 0)
+      if ORD(data[0]) != 0: raise ValueError('invalid private key')
       key = string_to_number(data[1:])
     else:
       raise Exception('unknown version')
-- 
2.43.0


From fcd296159505329343e62724305b0e5560f33f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:22 +0000
Subject: [PATCH 75/83] fix: a byte of urgent data from a peer no longer keeps
 the event loop spinning

---
 nbc/node/connection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index b02bd0b..daf8450 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -182,6 +182,12 @@ class Connection(asyncore.dispatcher):
     with self._send_lock:
       del self._send_buffer[:sent]
   
+  def handle_expt(self):  # urgent data is no part of the protocol, but select() reports it until it is taken
+    try:
+      self.socket.recv(1,socket.MSG_OOB)
+    except Exception as e:
+      pass
+  
   def handle_error(self):
     t,v,tb = sys.exc_info()
     if t == socket.error:
-- 
2.43.0


From 42c47d6a8d6bfda6089d9e24850abb89e3a6f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:22 +0000
Subject: [PATCH 76/83] fix: a failed accept (too many open files) no longer
 closes the listening socket for good

---
 nbc/node/basenode.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 838f076..195c59d 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -253,7 +253,11 @@ class BaseNode(asyncore.dispatcher, object):
     pass
   
   def handle_accept(self):
-    pair = self.accept()
+    try:
+      pair = self.accept()
+    except Exception as e: # such as too many open files, should not stop listening either
+      self.log('can not accept: %s' % e,level=self.LOG_LEVEL_ERROR)
+      return
     if not pair: return
     
     (sock,address) = pair
-- 
2.43.0


From df5c1c416e558920d9961d35b91caf85d2d31570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:22 +0000
Subject: [PATCH 77/83] fix: a closed or broken standard output no longer stops
 the node from listening and connecting

---
 nbc/node/basenode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 195c59d..881993d 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -166,7 +166,7 @@ class BaseNode(asyncore.dispatcher, object):
     try:            # asyncore keeps a reference in the map
       connection.Connection(address=address,node=self)
     except Exception as e:
-      print('meet error: %s' % e)
+      self.log('meet error: %s' % e,level=self.LOG_LEVEL_ERROR)
       return False  # will remove self._addresses[address] in self.disconnected()
     return True
   
@@ -261,7 +261,7 @@ class BaseNode(asyncore.dispatcher, object):
     if not pair: return
     
     (sock,address) = pair
-    print('Incoming connection from %s' % repr(address))
+    self.log('Incoming connection from %s' % repr(address),level=self.LOG_LEVEL_ERROR)
     
     host = address[0]
     if host in self._banned:
-- 
2.43.0


From bb94ffab130d6ddb09edc1fdf3db415c69686608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:18 +0000
Subject: [PATCH 78/83] fix: more open files than select() can watch no longer
 stop the event loop, the connection is refused

---
 nbc/node/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index daf8450..0b81334 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -2,6 +2,7 @@
 import asyncore
 import errno
 import os
+import select
 import socket
 import sys
 import threading
@@ -66,6 +67,7 @@ class Connection(asyncore.dispatcher):
     # bootstrap communication with the node by broadcasting ver
     now = time.time()
     try:
+      select.select([self.socket],[],[],0) # more files open than select() can watch, refuse one rather than stop the event loop
       message = protocol.Version( version = node.coin.protocol_version,
                   services = self.SERVICES,
                   timestamp = now,
-- 
2.43.0


From 3c66fca6df7c7cd90f0519023edf099047a30f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:12 +0000
Subject: [PATCH 79/83] fix: a node bound to all interfaces ('') or to a host
 name no longer drops every peer

---
 nbc/node/basenode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 881993d..416371d 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -64,7 +64,7 @@ class BaseNode(asyncore.dispatcher, object):
       address = ('127.0.0.1',0)
     self._address = address
     
-    self._guessed_external_ip = address[0]
+    self._guessed_external_ip = None
     self._external_ip = None
     self._upnp = None
     
@@ -78,6 +78,7 @@ class BaseNode(asyncore.dispatcher, object):
       self.bind(address)
       self.listen(5)
       
+      self._guessed_external_ip = self.socket.getsockname()[0] # the address given may be a host name or empty
       if address[1] == 0: # if bound to a random port, keep track
         self._address = self.socket.getsockname()
     except socket.error as e:  # port in use... Maybe already running
-- 
2.43.0


From 12125f50e241c851e8204dd39b027d69a93b4571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:12 +0000
Subject: [PATCH 80/83] fix: a peer or seed given by its host name can be
 connected to

---
 nbc/node/basenode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 416371d..2091c44 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -161,6 +161,10 @@ class BaseNode(asyncore.dispatcher, object):
   def add_peer(self, address, force=True):  # if already have max_peers and not force, ignore adding
     if not force and len(self._peers) >= self._max_peers:
       return False  # too much peers
+    try:
+      address = (socket.gethostbyname(address[0]),address[1]) # peers are known by IP, also a seed given by its name
+    except Exception as e:
+      pass          # connecting will fail as well
     if address in [n.address for n in self.values()]:
       return False  # already exists this peer
     
-- 
2.43.0


From 8149c6d80f1886491f29b4e7f1fdfe31891acfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:12 +0000
Subject: [PATCH 81/83] fix: a closed or broken standard output no longer keeps
 a node from serving

---
 nbc/node/__init__.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index 4662483..20fd160 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -15,6 +15,12 @@ class StopNode(Exception): pass
 _upnp = None
 _portmaps = {}  # (port, proto) -> external port of the mappings made by add_portmap
 
+def _print(text):
+  try:
+    print(text)
+  except (EnvironmentError,ValueError):  # no standard output is no reason not to serve
+    pass
+
 def _init_upnp():
   global _upnp
   if _upnp: return _upnp
@@ -22,12 +28,12 @@ def _init_upnp():
   try:
     u = miniupnpc.UPnP()  # there is none on every platform
     u.discoverdelay = 200
-    print('discovering... delay = %ums' % u.discoverdelay)
+    _print('discovering... delay = %ums' % u.discoverdelay)
     devices = u.discover()
-    print('%u device(s) detected' % devices)
+    _print('%u device(s) detected' % devices)
     _upnp = u
   except Exception as e:
-    print('!! meet Exception: %s' % e)
+    _print('!! meet Exception: %s' % e)
   return _upnp
 
 def add_portmap(port, proto, label=''):
@@ -35,10 +41,10 @@ def add_portmap(port, proto, label=''):
   try:
     u.selectigd()  # select Internet Gateway Device
     extAddr = u.externalipaddress()
-    print('local ip address %s: ' % u.lanaddr)
-    print('external ip address: %s' % extAddr)
-    print('%s %s' % (u.statusinfo(), u.connectiontype()))
-    print('trying to redirect %s port %u %s => %s port %u %s' %
+    _print('local ip address %s: ' % u.lanaddr)
+    _print('external ip address: %s' % extAddr)
+    _print('%s %s' % (u.statusinfo(), u.connectiontype()))
+    _print('trying to redirect %s port %u %s => %s port %u %s' %
           (extAddr, port, proto, u.lanaddr, port, proto))
     
     # find a free port for the redirection
@@ -48,17 +54,17 @@ def add_portmap(port, proto, label=''):
       eport = eport + 1
       r = u.getspecificportmapping(eport,proto)
     if r != None:
-      print('!! no free external port')
+      _print('!! no free external port')
       return
     b = u.addportmapping(eport,proto,u.lanaddr,port,label,'')
     if b:
       _portmaps[(port,proto)] = eport
-      print('success! now waiting for %s request on %s:%u' % (proto,extAddr,eport))
+      _print('success! now waiting for %s request on %s:%u' % (proto,extAddr,eport))
       return u
     else:
-      print('!! failed')
+      _print('!! failed')
   except Exception as e:
-    print('!! meet Exception: %s' % e)
+    _print('!! meet Exception: %s' % e)
 
 def remove_portmap(port, proto):
   eport = _portmaps.pop((port,proto),None)
@@ -66,8 +72,8 @@ def remove_portmap(port, proto):
   try:
     b = _upnp.deleteportmapping(eport,proto)
     if b:
-      print('successfully deleted port mapping')
+      _print('successfully deleted port mapping')
     else:
-      print('!! failed to remove port mapping')
+      _print('!! failed to remove port mapping')
   except Exception as e:
-    print('!! meet Exception: %s' % e)
+    _print('!! meet Exception: %s' % e)
-- 
2.43.0


From f0094930646430b7039b485b9004d34096346806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:29 +0000
Subject: [PATCH 82/83] fix: a wallet can be saved under a name given as bytes
 or longer than 218 characters again

---
 nbc/wallet/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbc/wallet/__init__.py b/nbc/wallet/__init__.py
index fd3e42a..d394714 100644
--- a/nbc/wallet/__init__.py
+++ b/nbc/wallet/__init__.py
@@ -11,7 +11,8 @@ def saveTo(fileName, wallet, passphrase=''):
   
   # an interrupted save must not destroy the existing wallet, so write aside and then swap
   fileName = os.path.realpath(fileName)
-  tmpName = '%s.%s.tmp' % (fileName,uuid.uuid4().hex)
+  tmpName = '%s.tmp' % uuid.uuid4().hex
+  tmpName = os.path.join(os.path.dirname(fileName),tmpName.encode() if type(fileName) == bytes else tmpName) # names may be bytes or long
   try:
     # the copy holds the key too, so nobody who can not read the wallet may read it
     mode = os.stat(fileName).st_mode & 0o777 if os.path.exists(fileName) else 0o666
-- 
2.43.0


From 411809d44abaf1173c5d64409ea7989be4f0dad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:45 +0000
Subject: [PATCH 83/83] fix: a pass phrase that is no Latin-1 text can be typed
 in or given as text to open a wallet

---
 nbc/wallet/address.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index a79ab64..d26fd4e 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -37,7 +37,10 @@ def _aesDecrypt(sText, passphrase=''):
   while not passphrase:
     passphrase = getpass.getpass('Passphrase:').strip()
   if not isinstance(passphrase,bytes):
-    passphrase = passphrase.encode('latin-1')
+    try:
+      passphrase = passphrase.encode('latin-1')
+    except UnicodeEncodeError:  # such as the Chinese one in README, typed in
+      passphrase = passphrase.encode('utf-8')
   passphrase = passphrase[:16].ljust(16,b'\x00')
   aes = AES(passphrase)
   
-- 
2.43.0

