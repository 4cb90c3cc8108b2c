From defdf1bfea567a7fba8a15b43a68da27b0db9c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 01/19] fix: store a header before counting it so dying in
 between leaves a valid headers file

---
 bitcoinx/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 2ce8768..1eda164 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -238,9 +238,10 @@ class _HeaderStorage(object):
         if start >= len(mmap):
             mmap.close()
             mmap = self.mmap = map_file(self.filename, self._offset(index + 5_000))
+        self.mmap[start: start + 80] = raw_header
+        # Only count the header once it is stored; otherwise dying here leaves an unusable file
         if index >= len(self):
             self._set_count(index + 1)
-        self.mmap[start: start + 80] = raw_header
 
     def __getitem__(self, key):
         def header(index):
-- 
2.43.0


From f5b011d3f68dcde5af8379563329adb6177b8c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 02/19] fix: re-create an empty headers file instead of failing
 to open it

---
 bitcoinx/chain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 1eda164..631674e 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -202,7 +202,11 @@ class _HeaderStorage(object):
     def _open_file(self, checkpoint):
         logger.debug(f'opening headers file {self.filename}')
         s = self.struct_reserved
-        self.mmap = map_file(self.filename)
+        try:
+            self.mmap = map_file(self.filename)
+        except ValueError:
+            # An empty file cannot be mapped; e.g. we died just after creating it
+            raise _BadHeadersFile(f'empty headers file {self.filename}') from None
         try:
             if len(self.mmap) >= s.size:
                 self.reserved_size, version, self.header_count = s.unpack(self.mmap[:s.size])
-- 
2.43.0


From 2ed87a70168958cd9ad1ed0c2cf613e7cc0e7be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 03/19] fix: allow more than 65,536 chains; beyond that
 connecting a fork raised OverflowError after storing it

---
 bitcoinx/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 631674e..fd19450 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -317,7 +317,7 @@ class Headers(object):
         self._chains = []
         self._short_hashes = bytearray()
         self._heights = array.array('I')
-        self._chain_indices = array.array('H')
+        self._chain_indices = array.array('I')
         self._cache = {}
 
         # Create the base chain out to the checkpoint
-- 
2.43.0


From 82bb7998c6637b687f33c4fff4f17944dcde04b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 04/19] fix: give P2SH_Address a KIND so outputs paying to it
 can be converted to JSON with classification

---
 bitcoinx/address.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitcoinx/address.py b/bitcoinx/address.py
index 15f7d31..ad64703 100644
--- a/bitcoinx/address.py
+++ b/bitcoinx/address.py
@@ -127,6 +127,8 @@ class P2PKH_Address(Address):
 
 class P2SH_Address(Address):
 
+    KIND = 'scripthash'
+
     def __init__(self, hash160, coin):
         super().__init__(coin)
         self._hash160 = _validate_hash160(hash160)
-- 
2.43.0


From 084207f580f6613722064f162e7d647257caa229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 05/19] fix: refuse a newline at the end of a BIP32 derivation
 path index

---
 bitcoinx/bip32.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitcoinx/bip32.py b/bitcoinx/bip32.py
index fbfbe58..94e8c83 100644
--- a/bitcoinx/bip32.py
+++ b/bitcoinx/bip32.py
@@ -44,7 +44,7 @@ from .packing import pack_be_uint32, unpack_be_uint32, pack_byte
 from .util import cachedproperty
 
 HARDENED = 1 << 31
-PART_REGEX = re.compile("([0-9]+)'?$")
+PART_REGEX = re.compile("([0-9]+)'?")
 
 
 @attr.s(slots=True, frozen=True, repr=False)
@@ -282,7 +282,7 @@ def bip32_decompose_chain_string(chain_str):
 
     result = []
     for part in parts[1:]:
-        match = PART_REGEX.match(part)
+        match = PART_REGEX.fullmatch(part)
         if not match:
             raise ValueError(f'invalid bip32 chain: {chain_str}')
         value = int(match.groups()[0])
-- 
2.43.0


From ab7e410ca14ab2d9d6f97334418eea2518c9df5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 06/19] fix: refuse compact signatures with out-of-range r or s
 values instead of converting them to zeros

---
 bitcoinx/signature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/signature.py b/bitcoinx/signature.py
index c1ee55b..f5eec9f 100644
--- a/bitcoinx/signature.py
+++ b/bitcoinx/signature.py
@@ -99,7 +99,8 @@ def compact_signature_to_der(compact_sig):
     if not (isinstance(compact_sig, bytes) and len(compact_sig) == 64):
         raise InvalidSignatureError('compact signature must be 64 bytes')
     cdata_sig = ffi.new('secp256k1_ecdsa_signature *')
-    lib.secp256k1_ecdsa_signature_parse_compact(CONTEXT, cdata_sig, compact_sig)
+    if not lib.secp256k1_ecdsa_signature_parse_compact(CONTEXT, cdata_sig, compact_sig):
+        raise InvalidSignatureError('r or s value of compact signature is out of range')
     return _cdata_signature_to_der(cdata_sig)
 
 
-- 
2.43.0


From e6ccb4693d0a4a2a8b5e93e10b119ab419548a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 07/19] fix: raise InvalidSignatureError for message signatures
 with non-ASCII characters

---
 bitcoinx/signature.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bitcoinx/signature.py b/bitcoinx/signature.py
index f5eec9f..453ad7d 100644
--- a/bitcoinx/signature.py
+++ b/bitcoinx/signature.py
@@ -31,7 +31,6 @@ __all__ = (
 )
 
 from base64 import b64decode
-from binascii import Error as binascii_Error
 
 from electrumsv_secp256k1 import ffi, lib
 
@@ -152,7 +151,7 @@ def to_recoverable_signature(message_sig):
     if isinstance(message_sig, str):
         try:
             message_sig = b64decode(message_sig, validate=True)
-        except binascii_Error:
+        except ValueError:
             raise InvalidSignatureError('invalid base64 encoding of message signature') from None
     if not isinstance(message_sig, bytes) or len(message_sig) != 65:
         raise InvalidSignatureError('message signature must be 65 bytes')
-- 
2.43.0


From 77cea8ff3e8e2738880bdd3eee1dcbbc1d09c2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 08/19] fix: raise DecryptionError for encrypted messages with
 non-ASCII characters

---
 bitcoinx/keys.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bitcoinx/keys.py b/bitcoinx/keys.py
index 72e3025..e89ecf6 100644
--- a/bitcoinx/keys.py
+++ b/bitcoinx/keys.py
@@ -29,7 +29,6 @@ __all__ = ('PrivateKey', 'PublicKey', 'CURVE_ORDER', 'DecryptionError', )
 
 
 from base64 import b64decode, b64encode
-from binascii import Error as binascii_Error
 from os import urandom
 
 from electrumsv_secp256k1 import ffi, lib
@@ -297,7 +296,7 @@ class PrivateKey:
         if isinstance(message, str):
             try:
                 message = b64decode(message, validate=True)
-            except binascii_Error:
+            except ValueError:
                 raise DecryptionError('invalid base64 encoding of encrypted message') from None
         mlen = len(magic)
         if len(message) < 81 + mlen:
-- 
2.43.0


From 61e7a31ab976a77c38f0bdc17955a5603a1ebde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 09/19] fix: raise ValueError for a cashaddr address consisting
 of just a checksum

---
 bitcoinx/cashaddr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitcoinx/cashaddr.py b/bitcoinx/cashaddr.py
index 0578353..88f9659 100644
--- a/bitcoinx/cashaddr.py
+++ b/bitcoinx/cashaddr.py
@@ -160,6 +160,8 @@ def decode(address):
         raise TypeError('address must be a string')
 
     prefix, payload = _decode_payload(address)
+    if not payload:
+        raise ValueError('empty payload in address {}'.format(address))
 
     # Ensure there isn't extra padding
     extrabits = len(payload) * 5 % 8
-- 
2.43.0


From 79749020e484cc26dc5402cfe962fd54c643cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 10/19] fix: refuse non-ASCII characters in cashaddr addresses

---
 bitcoinx/cashaddr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitcoinx/cashaddr.py b/bitcoinx/cashaddr.py
index 88f9659..ad1f734 100644
--- a/bitcoinx/cashaddr.py
+++ b/bitcoinx/cashaddr.py
@@ -110,6 +110,9 @@ def _decode_payload(addr):
 
     without the checksum.
     """
+    # Some non-ASCII characters, such as the Kelvin sign, have ASCII lower-case forms
+    if not addr.isascii():
+        raise ValueError('non-ASCII character in address: {}'.format(addr))
     lower = addr.lower()
     if lower != addr and addr.upper() != addr:
         raise ValueError('mixed case in address: {}'.format(addr))
-- 
2.43.0


From 867d78f61efefa8a8f022d1ae4e696680a1c7b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 11/19] fix: do not let ValueError escape when parsing ASM
 words of odd or very many digits

---
 bitcoinx/script.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bitcoinx/script.py b/bitcoinx/script.py
index e6cd276..cc31c4f 100644
--- a/bitcoinx/script.py
+++ b/bitcoinx/script.py
@@ -477,9 +477,14 @@ class Script:
             return pack_byte(opcode)
         # Handle what looks like a decimal, provided it's in-range
         if word.isdigit() or word[0] == '-' and word[1:].isdigit():
-            value = int(word)
-            if abs(value) <= 2147483647:
-                return push_int(value)
+            try:
+                value = int(word)
+            except ValueError:
+                # Digits such as superscripts, or too many for int() to convert
+                pass
+            else:
+                if abs(value) <= 2147483647:
+                    return push_int(value)
         try:
             return push_item(bytes.fromhex(word))
         except ValueError:
-- 
2.43.0


From c8cc7d936a4af13f8a5564bcca2ef0e1e7aa9ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 12/19] fix: write boolean indices of a BIP32 path as numbers

---
 bitcoinx/bip32.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/bip32.py b/bitcoinx/bip32.py
index 94e8c83..bef6da3 100644
--- a/bitcoinx/bip32.py
+++ b/bitcoinx/bip32.py
@@ -328,7 +328,7 @@ def bip32_build_chain_string(derivation):
         yield 'm'
         for n in derivation:
             if n < HARDENED:
-                yield str(n)
+                yield f'{n:d}'
             else:
                 yield str(n - HARDENED) + "'"
 
-- 
2.43.0


From 1812f676b3671163d4a50d9217000741f2acebf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 13/19] fix: read the bundled word lists as UTF-8 whatever the
 locale

---
 bitcoinx/mnemonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/mnemonic.py b/bitcoinx/mnemonic.py
index 8abdf9d..f4d2836 100644
--- a/bitcoinx/mnemonic.py
+++ b/bitcoinx/mnemonic.py
@@ -74,7 +74,7 @@ class Wordlists:
 
     @classmethod
     def _read_wordlist(cls, filename, expected_count):
-        with open(data_file_path(filename)) as f:
+        with open(data_file_path(filename), encoding='utf-8') as f:
             text = f.read()
         return cls._text_to_wordlist(text, expected_count)
 
-- 
2.43.0


From 305d861eac015393bae8eb20f633b2053acc3dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:52 +0000
Subject: [PATCH 14/19] fix: median_time_past of a negative height raises
 MissingHeader

It raised IndexError, as no header was read at all.
---
 bitcoinx/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index fd19450..330c8bc 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -480,7 +480,7 @@ class Headers(object):
         raw_header = self.raw_header_at_height
         timestamp = self.coin.header_timestamp
         timestamps = [timestamp(raw_header(chain, h))
-                      for h in range(height, max(-1, height - 11), -1)]
+                      for h in range(height, max(min(height, 0) - 1, height - 11), -1)]
         return sorted(timestamps)[len(timestamps) // 2]
 
     def required_bits(self, chain, height, timestamp=None):
-- 
2.43.0


From e909de0d1072aedca28a6642f3b260fee1930c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:52 +0000
Subject: [PATCH 15/19] fix: show the bits of a header in hex

They were shown as a decimal number prefixed with 0x.
---
 bitcoinx/coin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/coin.py b/bitcoinx/coin.py
index 6cc57a4..5bf2631 100644
--- a/bitcoinx/coin.py
+++ b/bitcoinx/coin.py
@@ -70,7 +70,7 @@ class Header(object):
     def __str__(self):
         return (f'Header(version=0x{self.version:x}, prev_hash={hash_to_hex_str(self.prev_hash)}, '
                 f'merkle_root={hash_to_hex_str(self.merkle_root)}, timestamp={self.timestamp}, '
-                f'bits=0x{self.bits}, nonce={self.nonce}, hash={self.hex_str()}, '
+                f'bits=0x{self.bits:x}, nonce={self.nonce}, hash={self.hex_str()}, '
                 f'height={self.height})')
 
 
-- 
2.43.0


From 8d2d0b0970a3ebca80ba224c4064ab4368d74344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:35 +0000
Subject: [PATCH 16/19] fix: find headers on chains with more than a thousand
 ancestors

Chain.header_index recursed through the parent chains, so reading a header
(or connecting a fork) below about a thousand nested forks raised RecursionError.
---
 bitcoinx/chain.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 330c8bc..98c9a70 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -142,13 +142,15 @@ class Chain(object):
 
     def header_index(self, height):
         '''Return the index of the header in storage.'''
-        if height >= self.first_height:
+        # A chain can have more ancestors than Python permits recursive calls
+        chain = self
+        while height < chain.first_height and chain.parent:
+            chain = chain.parent
+        if height >= chain.first_height:
             try:
-                return self._header_indices[height - self.first_height]
+                return chain._header_indices[height - chain.first_height]
             except IndexError:
                 pass
-        elif self.parent:
-            return self.parent.header_index(height)
         elif height >= 0:
             return height
         raise MissingHeader(f'no header at height {height}')
-- 
2.43.0


From c688c061ec173fb9483c9716adc6ad6ee3d26578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:48 +0000
Subject: [PATCH 17/19] fix: report truncated pushes when assertions are off
 too

With python -O the final, truncated push of a script was yielded as if complete.
---
 bitcoinx/script.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/script.py b/bitcoinx/script.py
index cc31c4f..2f38380 100644
--- a/bitcoinx/script.py
+++ b/bitcoinx/script.py
@@ -386,7 +386,9 @@ class Script:
                         n += 4
                     data = script[n: n + dlen]
                     n += dlen
-                    assert len(data) == dlen
+                    # Not an assertion: those are not always executed
+                    if len(data) != dlen:
+                        raise TruncatedScriptError
                     yield data
                 except Exception:
                     raise TruncatedScriptError from None
-- 
2.43.0


From f6a4a015a2d619dd30017e8f901d5d1c814ce166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:43 +0000
Subject: [PATCH 18/19] fix: keep the headers file mapped when it cannot be
 grown

The old mapping was closed before the file was opened, extended and mapped
again.  When that failed (no room, too many open files) every later use of
the headers raised ValueError.
---
 bitcoinx/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 98c9a70..3827b4f 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -242,8 +242,9 @@ class _HeaderStorage(object):
         mmap = self.mmap
         start = self._offset(index)
         if start >= len(mmap):
+            # Keep the old mapping if there is no new one, so that we remain usable
+            self.mmap = map_file(self.filename, self._offset(index + 5_000))
             mmap.close()
-            mmap = self.mmap = map_file(self.filename, self._offset(index + 5_000))
         self.mmap[start: start + 80] = raw_header
         # Only count the header once it is stored; otherwise dying here leaves an unusable file
         if index >= len(self):
-- 
2.43.0


From 415603db1ed39454e5ffd3dd4247e608bf234b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:24 +0000
Subject: [PATCH 19/19] fix: refuse an old Electrum hex seed that is not
 hexadecimal

---
 bitcoinx/mnemonic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitcoinx/mnemonic.py b/bitcoinx/mnemonic.py
index f4d2836..9ca6eff 100644
--- a/bitcoinx/mnemonic.py
+++ b/bitcoinx/mnemonic.py
@@ -291,6 +291,9 @@ class ElectrumMnemonic:
     def hex_seed_to_old(cls, hex_seed):
         if len(hex_seed) not in {32, 64}:
             raise ValueError('hex seed has invalid length')
+        # int() takes more than hexadecimal digits, such as signs and prefixes
+        if len(bytes.fromhex(hex_seed)) * 2 != len(hex_seed):
+            raise ValueError('hex seed is not hexadecimal')
 
         def indices(hex_seed, n):
             for chunk in chunks(hex_seed, 8):
-- 
2.43.0

