From 1883580a2fbfbb3e33a3d0530b752f0ab1fd2182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 1/7] fix: keep leading zero bytes of fixed-width BIP38 fields

---
 bip38/bip38.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index b24b245..eba0708 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -209,10 +209,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(derived_half_2)
         encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(private_key.raw()[0:16]) ^ bytes_to_integer(derived_half_1[0:16])
+            bytes_to_integer(private_key.raw()[0:16]) ^ bytes_to_integer(derived_half_1[0:16]), 16
         ))
         encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32])
+            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32]), 16
         ))
 
         encrypted_private_key: bytes = (
@@ -316,10 +316,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
         encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(seed_b[:16]) ^ bytes_to_integer(derived_half_1)
+            bytes_to_integer(seed_b[:16]) ^ bytes_to_integer(derived_half_1), 16
         ))
         encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(encrypted_half_1[8:] + seed_b[16:]) ^ bytes_to_integer(derived_half_2)
+            bytes_to_integer(encrypted_half_1[8:] + seed_b[16:]) ^ bytes_to_integer(derived_half_2), 16
         ))
         encrypted_wif: str = ensure_string(check_encode((
             integer_to_bytes(EC_MULTIPLIED_PRIVATE_KEY_PREFIX) +
@@ -331,10 +331,10 @@ class BIP38:
             (bytes_to_integer(scrypt_hash[63:]) & 1) ^ bytes_to_integer(point_b[:1])
         )
         point_b_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(point_b[1:17]) ^ bytes_to_integer(derived_half_1)
+            bytes_to_integer(point_b[1:17]) ^ bytes_to_integer(derived_half_1), 16
         ))
         point_b_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(point_b[17:]) ^ bytes_to_integer(derived_half_2)
+            bytes_to_integer(point_b[17:]) ^ bytes_to_integer(derived_half_2), 16
         ))
         encrypted_point_b: bytes = (
             point_b_prefix + point_b_half_1 + point_b_half_2
@@ -425,10 +425,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
         point_b_half_1: bytes = integer_to_bytes(
-            bytes_to_integer(aes.decrypt(derived_half_1)) ^ bytes_to_integer(scrypt_hash[:16])
+            bytes_to_integer(aes.decrypt(derived_half_1)) ^ bytes_to_integer(scrypt_hash[:16]), 16
         )
         point_b_half_2: bytes = integer_to_bytes(
-            bytes_to_integer(aes.decrypt(derived_half_2)) ^ bytes_to_integer(scrypt_hash[16:32])
+            bytes_to_integer(aes.decrypt(derived_half_2)) ^ bytes_to_integer(scrypt_hash[16:32]), 16
         )
         point_b_prefix: bytes = integer_to_bytes(
             bytes_to_integer(encrypted_point_b[:1]) ^ (bytes_to_integer(scrypt_hash[63:]) & 1)
@@ -541,7 +541,7 @@ class BIP38:
             decrypted_half_1: bytes = aes.decrypt(encrypted_half_1)
 
             private_key: bytes = integer_to_bytes(
-                bytes_to_integer(decrypted_half_1 + decrypted_half_2) ^ bytes_to_integer(derived_half_1)
+                bytes_to_integer(decrypted_half_1 + decrypted_half_2) ^ bytes_to_integer(derived_half_1), 32
             )
             if bytes_to_integer(private_key) == 0 or bytes_to_integer(private_key) >= N:
                 raise Error("Invalid Non-EC encrypted WIF (Wallet Import Format)")
@@ -597,7 +597,7 @@ class BIP38:
 
             aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
             encrypted_half_1_half_2_seed_b_last_3 = integer_to_bytes(
-                bytes_to_integer(aes.decrypt(encrypted_half_2)) ^ bytes_to_integer(encrypted_seed_b[16:32])
+                bytes_to_integer(aes.decrypt(encrypted_half_2)) ^ bytes_to_integer(encrypted_seed_b[16:32]), 16
             )
             encrypted_half_1_half_2: bytes = encrypted_half_1_half_2_seed_b_last_3[:8]
             encrypted_half_1: bytes = (
@@ -605,7 +605,7 @@ class BIP38:
             )
 
             seed_b: bytes = integer_to_bytes(
-                bytes_to_integer(aes.decrypt(encrypted_half_1)) ^ bytes_to_integer(encrypted_seed_b[:16])
+                bytes_to_integer(aes.decrypt(encrypted_half_1)) ^ bytes_to_integer(encrypted_seed_b[:16]), 16
             ) + encrypted_half_1_half_2_seed_b_last_3[8:]
 
             factor_b: bytes = double_sha256(seed_b)
@@ -614,7 +614,7 @@ class BIP38:
 
             # multiply private key
             private_key: bytes = integer_to_bytes(
-                (bytes_to_integer(pass_factor) * bytes_to_integer(factor_b)) % N
+                (bytes_to_integer(pass_factor) * bytes_to_integer(factor_b)) % N, 32
             )
             public_key: PublicKey = PrivateKey.from_bytes(private_key).public_key()
             wif_type: Literal["wif", "wif-compressed"] = "wif"
-- 
2.43.0


From 53b54a305b2984a610eb8a30a0b4795df8f1e102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 2/7] fix: reject seeds that are not 24 bytes

---
 bip38/bip38.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index eba0708..92ddf80 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -261,6 +261,8 @@ class BIP38:
         if network not in self.networks:
             raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
         seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)
+        if len(seed_b) != 24:
+            raise Error("Invalid seed length", expected=48, got=len(bytes_to_string(seed_b)))
         try:
             intermediate_decode: bytes = check_decode(intermediate_passphrase)
         except ValueError:
-- 
2.43.0


From f18beafa2b819fe12e7ae2999e47e6bd828fda3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 3/7] fix: honour a lot or sequence of zero in intermediate
 codes

---
 bip38/bip38.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index 92ddf80..aa4918e 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -124,10 +124,10 @@ class BIP38:
             raise Error("Invalid owner salt length", expected=[8, 16], got=len(bytes_to_string(owner_salt)))
         if len(owner_salt) == 4 and (lot is None or sequence is None):
             raise Error("Invalid owner salt length for non lot/sequence", expected=16, got=len(bytes_to_string(owner_salt)))
-        if (lot and sequence is None) or (lot is None and sequence):
+        if (lot is None) != (sequence is None):
             raise Error("Both lot & sequence are required", detail=f"got: (lot {lot}) & (sequence {sequence})")
 
-        if lot and sequence:
+        if lot is not None and sequence is not None:
             lot, sequence = int(lot), int(sequence)
             if not 100000 <= lot <= 999999:
                 raise Error("Invalid lot", expected="100000 <= lot <= 999999", got=lot)
-- 
2.43.0


From e48de5de2ad6995d8119f61668578eaf152548fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 4/7] fix: verify the checksum of an encrypted WIF before
 decrypting it

---
 bip38/bip38.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index aa4918e..7830726 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -510,6 +510,8 @@ class BIP38:
         encrypted_wif_decode: bytes = decode(encrypted_wif)
         if len(encrypted_wif_decode) != 43:
             raise WIFError("Invalid encrypted WIF length", expected=43, got=len(encrypted_wif_decode))
+        if get_checksum(encrypted_wif_decode[:-4]) != encrypted_wif_decode[-4:]:
+            raise WIFError("Invalid encrypted WIF checksum")
 
         prefix: bytes = encrypted_wif_decode[:2]
         flag: bytes = encrypted_wif_decode[2:3]
-- 
2.43.0


From 0d63b04bceb7743980c4636050a9c26b528d499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 5/7] fix: verify the checksum and compression marker of a WIF

---
 bip38/wif.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bip38/wif.py b/bip38/wif.py
index 83b8a06..86d49b6 100644
--- a/bip38/wif.py
+++ b/bip38/wif.py
@@ -88,8 +88,12 @@ def decode_wif(
     if len(private_key) not in [33, 32]:
         raise WIFError(f"Invalid Wallet Import Format (WIF)")
     elif len(private_key) == 33:
+        if not private_key.endswith(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX)):
+            raise WIFError(f"Invalid Wallet Import Format (WIF)")
         private_key = private_key[:-len(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX))]
         wif_type = "wif-compressed"
+    if get_checksum(raw[:-1 * 4]) != checksum:
+        raise WIFError("Invalid Wallet Import Format (WIF) checksum")
 
     return private_key, wif_type, checksum
 
-- 
2.43.0


From 102b917d857398e9a4fed0c5232c1c9e722033ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 6/7] fix: reject characters outside the base58 alphabet

---
 bip38/libs/base58.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bip38/libs/base58.py b/bip38/libs/base58.py
index dd0f95f..02bd0a6 100644
--- a/bip38/libs/base58.py
+++ b/bip38/libs/base58.py
@@ -51,7 +51,10 @@ def decode(data, alphabet=__base58_alphabet):
     val = 0
     prefix = 0
     for c in data:
-        val = (val * len(alphabet)) + alphabet.encode("utf-8").find(c)
+        digit = alphabet.encode("utf-8").find(c)
+        if digit < 0:
+            raise ValueError("invalid base58 character")
+        val = (val * len(alphabet)) + digit
         if val == 0:
             prefix += 1
 
-- 
2.43.0


From 73a305cb270c628f520e5eda2a99915a292c9dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:24 +0000
Subject: [PATCH 7/7] fix: refuse unknown networks in the WIF functions with
 NetworkError, not KeyError

---
 bip38/wif.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/bip38/wif.py b/bip38/wif.py
index 86d49b6..02e8230 100644
--- a/bip38/wif.py
+++ b/bip38/wif.py
@@ -19,13 +19,31 @@ from .const import (
 )
 from .crypto import get_checksum
 from .exceptions import (
-    WIFError, Secp256k1Error
+    NetworkError, WIFError, Secp256k1Error
 )
 from .utils import (
     get_bytes, integer_to_bytes, bytes_to_string
 )
 
 
+def get_wif_prefix(cryptocurrency: Type[ICryptocurrency], network: str) -> int:
+    """
+    Get the Wallet Import Format (WIF) prefix of a cryptocurrency's network.
+
+    :param cryptocurrency: The cryptocurrency class.
+    :type cryptocurrency: Type[ICryptocurrency]
+    :param network: The network of the cryptocurrency (e.g. 'mainnet' or 'testnet').
+    :type network: str
+
+    :returns: The WIF prefix.
+    :rtype: int
+    """
+
+    if network not in cryptocurrency.NETWORKS:
+        raise NetworkError("Wrong network type", expected=list(cryptocurrency.NETWORKS.keys()), got=network)
+    return cryptocurrency.NETWORKS[network]["wif_prefix"]
+
+
 def encode_wif(
     private_key: Union[str, bytes], wif_prefix: int = Bitcoin.NETWORKS["mainnet"]["wif_prefix"]
 ) -> Tuple[str, str]:
@@ -123,7 +141,7 @@ def private_key_to_wif(
     if wif_type not in WIF_TYPES:
         raise WIFError("Wrong WIF type", expected=WIF_TYPES, got=wif_type)
     wif, wif_compressed = encode_wif(
-        private_key=private_key, wif_prefix=cryptocurrency.NETWORKS[network]["wif_prefix"]
+        private_key=private_key, wif_prefix=get_wif_prefix(cryptocurrency, network)
     )
     return wif if wif_type == "wif" else wif_compressed
 
@@ -146,7 +164,7 @@ def wif_to_private_key(
     """
 
     return bytes_to_string(decode_wif(
-        wif=wif, wif_prefix=cryptocurrency.NETWORKS[network]["wif_prefix"]
+        wif=wif, wif_prefix=get_wif_prefix(cryptocurrency, network)
     )[0])
 
 
@@ -168,7 +186,7 @@ def get_wif_type(
     """
 
     return decode_wif(
-        wif=wif, wif_prefix=cryptocurrency.NETWORKS[network]["wif_prefix"]
+        wif=wif, wif_prefix=get_wif_prefix(cryptocurrency, network)
     )[1]
 
 
@@ -190,5 +208,5 @@ def get_wif_checksum(
     """
 
     return bytes_to_string(decode_wif(
-        wif=wif, wif_prefix=cryptocurrency.NETWORKS[network]["wif_prefix"]
+        wif=wif, wif_prefix=get_wif_prefix(cryptocurrency, network)
     )[2])
-- 
2.43.0

