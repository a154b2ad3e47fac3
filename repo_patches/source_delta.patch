From 8ac51db85ce7698acf1b8e258807fbcd5d53e8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 01/41] fix: VarInt.from_bytes refuses truncated input and
 accepts every compact form

---
 riemann/tx/shared.py | 12 +++++++-----
 riemann/tx/tx.py     | 13 ++++++-------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index f478326..1132385 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -205,20 +205,22 @@ class VarInt(ByteData):
         num = byte_string
         if num[0] <= 0xfc:
             num = num[0:1]
-            non_compact = False
+            size, minimum = 1, 0
         elif num[0] == 0xfd:
             num = num[1:3]
-            non_compact = (num[-1:] == b'\x00')
+            size, minimum = 2, 0xfd
         elif num[0] == 0xfe:
             num = num[1:5]
-            non_compact = (num[-2:] == b'\x00\x00')
+            size, minimum = 4, 0x10000
         elif num[0] == 0xff:
             num = num[1:9]
-            non_compact = (num[-4:] == b'\x00\x00\x00\x00')
-        if len(num) not in [1, 2, 4, 8]:
+            size, minimum = 8, 0x100000000
+        if len(num) != size:
             raise ValueError('Malformed VarInt. Got: {}'
                              .format(byte_string.hex()))
 
+        non_compact = utils.le2i(num) < minimum
+
         if (non_compact
             and ('overwinter' in riemann.get_current_network_name()
                  or 'sapling' in riemann.get_current_network_name())):
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index a58b8a6..719eb04 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -273,16 +273,15 @@ class TxOut(ByteData):
         '''
         Parse a TxOut from a bytestring. Also available as from_hex
         '''
+        if byte_string[8] >= 0xfc:
+            raise NotImplementedError(
+                'No support for abnormally long pk_scripts.')
         n = VarInt.from_bytes(byte_string[8:])
         script_start = 8 + len(n)
         script_end = script_start + n.number
-        if n.number < 0xfc:
-            return TxOut(
-                value=byte_string[:8],
-                output_script=byte_string[script_start:script_end])
-        else:
-            raise NotImplementedError(
-                'No support for abnormally long pk_scripts.')
+        return TxOut(
+            value=byte_string[:8],
+            output_script=byte_string[script_start:script_end])
 
 
 class WitnessStackItem(ByteData):
-- 
2.43.0


From 1a858a2e35d2ce94c4d387f2305d9e5d2bae9550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 02/41] fix: VarInt keeps the wire form of a non-compact
 encoding

---
 riemann/tx/shared.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index 1132385..d0f4d84 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -172,15 +172,15 @@ class VarInt(ByteData):
             raise ValueError('VarInt cannot be greater than (2 ** 64) - 1. '
                              'Got: {}'
                              .format(number))
-        if number <= 0xfc:
+        if number <= 0xfc and length not in (3, 5, 9):
             pass  # No prefix
-        elif number <= 0xffff or length == 3:
+        elif number <= 0xffff and length not in (5, 9):
             self += bytes([0xfd])
             length = 3
-        elif number <= 0xffffffff or length == 5:
+        elif number <= 0xffffffff and length != 9:
             self += bytes([0xfe])
             length = 5
-        elif number <= 0xffffffffffffffff or length == 9:
+        else:
             self += bytes([0xff])
             length = 9
         self += utils.i2le(number)
@@ -194,7 +194,7 @@ class VarInt(ByteData):
         self._make_immutable()
 
     def copy(self) -> 'VarInt':
-        return VarInt(self.number)
+        return VarInt(self.number, length=len(self))
 
     @classmethod
     def from_bytes(VarInt, byte_string: bytes) -> 'VarInt':
-- 
2.43.0


From 1534f2df6ea312595f060807f369f56cde6799fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 03/41] fix: TxOut and WitnessStackItem parsers refuse
 truncated contents

---
 riemann/tx/tx.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 719eb04..4c85c14 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -279,6 +279,8 @@ class TxOut(ByteData):
         n = VarInt.from_bytes(byte_string[8:])
         script_start = 8 + len(n)
         script_end = script_start + n.number
+        if len(byte_string) < script_end:
+            raise ValueError('Malformed TxOut. Script is truncated.')
         return TxOut(
             value=byte_string[:8],
             output_script=byte_string[script_start:script_end])
@@ -316,6 +318,8 @@ class WitnessStackItem(ByteData):
         n = VarInt.from_bytes(byte_string)
         item_start = len(n)
         item_end = item_start + n.number
+        if len(byte_string) < item_end:
+            raise ValueError('Malformed WitnessStackItem. Item is truncated.')
         return WitnessStackItem(byte_string[item_start:item_end])
 
 
-- 
2.43.0


From 7b16e8ed20c6c84d630ab5c957f05a312b0c3bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 04/41] fix: splitting a script_sig never alters its bytes

---
 riemann/tx/tx.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 4c85c14..92ad017 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -179,8 +179,12 @@ class TxIn(ByteData):
             deserialized = serialization.deserialize(script_sig)
             items = deserialized.split()
             serialization.hex_deserialize(items[-1])
-            stack_script = serialization.serialize(' '.join(items[:-1]))
-            redeem_script = serialization.serialize(items[-1])
+            stack = serialization.serialize(' '.join(items[:-1]))
+            redeem = serialization.serialize(items[-1])
+            # splitting must not alter the bytes, e.g. of non-minimal pushes
+            if stack + redeem == script_sig:
+                stack_script = stack
+                redeem_script = redeem
         except (IndexError, ValueError, NotImplementedError):
             pass
         return stack_script, redeem_script
-- 
2.43.0


From fe0a371f6ccf1a8113ce82493f1117a0a7f80dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 05/41] fix: a transaction without the segwit flag is not a
 witness transaction

---
 riemann/tx/tx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 92ad017..29c8b4c 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -632,7 +632,7 @@ class Tx(ByteData):
 
     def is_witness(self) -> bool:
         '''Return True if the transaction witness flag is set'''
-        return self.flag is not None or self.tx_witnesses is not None
+        return self.flag is not None
 
     def calculate_fee(self, input_values: Sequence[int]) -> int:
         '''
-- 
2.43.0


From f160756e9b85b40583dc92bff55992fd44dc9dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 06/41] fix: SIGHASH_SINGLE keeps exactly the outputs up to the
 signed index

---
 riemann/tx/decred.py | 2 +-
 riemann/tx/sprout.py | 2 +-
 riemann/tx/tx.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 5084d15..fa5c337 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -370,7 +370,7 @@ class DecredTx(DecredByteData):
                             value=b'\xff' * 8,
                             version=b'\x00\x00',
                             output_script=b'')
-                            for _ in copy_tx.tx_ins]
+                            for _ in copy_tx_outs]
             copy_tx_outs[index] = copy_tx.tx_outs[index]
         except IndexError:
             raise NotImplementedError(
diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 117ac25..29601b6 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -310,7 +310,7 @@ class SproutTx(z.ZcashByteData):
         # Other tx_outs are set to -1 value and null scripts
         copy_tx_outs = copy_tx.tx_outs[:index + 1]
         copy_tx_outs = [TxOut(value=b'\xff' * 8, output_script=b'')
-                        for _ in copy_tx.tx_ins]  # Null them all
+                        for _ in copy_tx_outs]  # Null them all
         copy_tx_outs[index] = copy_tx.tx_outs[index]  # Fix the current one
 
         # Other tx_ins sequence numbers are set to 0
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 29c8b4c..234d594 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -931,7 +931,7 @@ class Tx(ByteData):
         # Other tx_outs are set to -1 value and null scripts
         copy_tx_outs = list(copy_tx.tx_outs[:index + 1])
         copy_tx_outs = [TxOut(value=b'\xff' * 8, output_script=b'')
-                        for _ in copy_tx.tx_ins]  # Null them all
+                        for _ in copy_tx_outs]  # Null them all
         copy_tx_outs[index] = copy_tx.tx_outs[index]  # Fix the current one
 
         # Other tx_ins sequence numbers are set to 0
-- 
2.43.0


From 86ff91047d8030727a7df9b3fc45795efe707eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 07/41] fix: Decred SIGHASH_ANYONECANPAY commits to the signed
 input only

---
 riemann/tx/decred.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index fa5c337..9ce3dc6 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -417,11 +417,10 @@ class DecredTx(DecredByteData):
                                 index: int,
                                 copy_tx: 'DecredTx',
                                 sighash_type: int) -> bytes:
-        copy_tx_witnesses = [
-            w.copy(stack_script=b'', redeem_script=b'')
-            for w in copy_tx.tx_witnesses]
-        copy_tx_witnesses[index] = copy_tx.tx_witnesses[index]
-        copy_tx = copy_tx.copy(tx_witnesses=copy_tx_witnesses)
+        # Remove all other inputs and their witnesses
+        copy_tx = copy_tx.copy(
+            tx_ins=[copy_tx.tx_ins[index]],
+            tx_witnesses=[copy_tx.tx_witnesses[index]])
 
         return self._sighash_final_hashing(
             index=index,
-- 
2.43.0


From c201bc36a1f8e31aff28667bad113057deef0a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 08/41] fix: parse Zcash joinsplits after a large number of
 outputs

---
 riemann/tx/overwinter.py | 2 +-
 riemann/tx/sapling.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 3e39d94..9c01225 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -244,7 +244,7 @@ class OverwinterTx(z.ZcashByteData):
         else:
             tx_joinsplits = []
             tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
-            current += len(tx_outs_num)
+            current += len(tx_joinsplits_num)
             for _ in range(tx_joinsplits_num.number):
                 tx_joinsplit = z.SproutJoinsplit.from_bytes(
                     byte_string[current:])
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index c606300..dfcf1bb 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -561,7 +561,7 @@ class SaplingTx(z.ZcashByteData):
 
         tx_joinsplits = []
         tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
-        current += len(tx_outs_num)
+        current += len(tx_joinsplits_num)
         for _ in range(tx_joinsplits_num.number):
             tx_joinsplit = SaplingJoinsplit.from_bytes(
                 byte_string[current:])
-- 
2.43.0


From 3d0c8f6f2eaf19d7d94abca01981dc78dd0de5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:53 +0000
Subject: [PATCH 09/41] fix: Zcash SIGHASH_SINGLE refuses an index without an
 output

---
 riemann/tx/overwinter.py | 2 +-
 riemann/tx/sapling.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 9c01225..a76cbd7 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -352,7 +352,7 @@ class OverwinterTx(z.ZcashByteData):
                 data += tx_out
 
         if sighash_type == shared.SIGHASH_SINGLE:
-            if index > len(self.tx_outs):
+            if index >= len(self.tx_outs):
                 raise NotImplementedError(
                     'I refuse to implement the SIGHASH_SINGLE bug.')
             data += self.tx_outs[index]
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index dfcf1bb..b3bee75 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -690,7 +690,7 @@ class SaplingTx(z.ZcashByteData):
                 data += tx_out
 
         if sighash_type == shared.SIGHASH_SINGLE:
-            if index > len(self.tx_outs):
+            if index >= len(self.tx_outs):
                 raise NotImplementedError(
                     'I refuse to implement the SIGHASH_SINGLE bug.')
             data += self.tx_outs[index]
-- 
2.43.0


From b600224417e13f8c89f7cc188c595ccb4ebe02c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 10/41] fix: Sapling sighash_all and sighash_single honour
 anyone_can_pay

---
 riemann/tx/sapling.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index b3bee75..227ac51 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -603,10 +603,16 @@ class SaplingTx(z.ZcashByteData):
         return False
 
     def sighash_all(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_ALL, **kwargs)
+        return self.sighash(
+            sighash_type=shared.SIGHASH_ALL,
+            anyone_can_pay=anyone_can_pay,
+            **kwargs)
 
     def sighash_single(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_SINGLE, **kwargs)
+        return self.sighash(
+            sighash_type=shared.SIGHASH_SINGLE,
+            anyone_can_pay=anyone_can_pay,
+            **kwargs)
 
     def sighash(self,
                 sighash_type: int,
-- 
2.43.0


From 85a06dce033006479046011e42dd2dfbfc4de9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 11/41] fix: SproutTx.from_bytes parses version 1 transactions

---
 riemann/tx/sprout.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 29601b6..55203e0 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -4,7 +4,7 @@ from riemann.tx import shared
 from riemann.tx.tx import TxIn, TxOut
 from riemann.tx import zcash_shared as z
 
-from typing import cast, Optional, Sequence, Tuple
+from typing import cast, List, Optional, Sequence, Tuple
 
 
 class SproutTx(z.ZcashByteData):
@@ -180,11 +180,10 @@ class SproutTx(z.ZcashByteData):
         lock_time = byte_string[current:current + 4]
         current += 4
 
-        tx_joinsplits = None
+        tx_joinsplits: List[z.SproutJoinsplit] = []
         joinsplit_pubkey = None
         joinsplit_sig = None
         if utils.le2i(version) == 2:  # If we expect joinsplits
-            tx_joinsplits = []
             tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
             current += len(tx_joinsplits_num)
 
-- 
2.43.0


From 5175ed07af411f2238378c5366fca51bff6edffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:39 +0000
Subject: [PATCH 12/41] fix: Sprout transactions without joinsplits support
 SIGHASH_SINGLE and ANYONECANPAY

---
 riemann/tx/sprout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 55203e0..225ca8d 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -296,7 +296,7 @@ class SproutTx(z.ZcashByteData):
         https://github.com/petertodd/python-bitcoinlib/blob/051ec4e28c1f6404fd46713c2810d4ebbed38de4/bitcoin/core/script.py#L913-L965
         '''
 
-        if self.tx_joinsplits is not None:
+        if len(self.tx_joinsplits) != 0:
             raise ValueError('Sighash single not permitted with joinsplits.')
 
         if index >= len(self.tx_outs):
@@ -340,7 +340,7 @@ class SproutTx(z.ZcashByteData):
         https://en.bitcoin.it/wiki/OP_CHECKSIG#Procedure_for_Hashtype_SIGHASH_ANYONECANPAY
         '''
 
-        if self.tx_joinsplits is not None:
+        if len(self.tx_joinsplits) != 0:
             raise ValueError(
                 'Sighash anyonecanpay not permitted with joinsplits.')
 
-- 
2.43.0


From b42ceae2d8ff5111b0e82f2f5a93a413b3da9842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 13/41] fix: Sprout transactions without joinsplits have no
 joinsplit key and signature

---
 riemann/tx/sprout.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 225ca8d..1973b77 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -69,9 +69,10 @@ class SproutTx(z.ZcashByteData):
                         'Invalid Joinsplit. '
                         'Expected instance of SproutJoinsplit. Got {}'
                         .format(type(tx_joinsplit).__name__))
-            self.validate_bytes(joinsplit_pubkey, 32)
-            if joinsplit_sig is not None and joinsplit_sig != b'':
-                self.validate_bytes(joinsplit_sig, 64)
+            if len(tx_joinsplits) != 0:
+                self.validate_bytes(joinsplit_pubkey, 32)
+                if joinsplit_sig is not None and joinsplit_sig != b'':
+                    self.validate_bytes(joinsplit_sig, 64)
 
         if utils.le2i(version) not in [1, 2]:
             raise ValueError('Version must be 1 or 2. '
@@ -90,8 +91,9 @@ class SproutTx(z.ZcashByteData):
             self += shared.VarInt(len(tx_joinsplits))
             for tx_joinsplit in tx_joinsplits:
                 self += tx_joinsplit
-            self += cast(bytes, joinsplit_pubkey)
-            self += cast(bytes, joinsplit_sig)
+            if len(tx_joinsplits) != 0:
+                self += cast(bytes, joinsplit_pubkey)
+                self += cast(bytes, joinsplit_sig)
 
         self.version = version
         self.tx_ins = tuple(tx_in for tx_in in tx_ins)
@@ -191,9 +193,10 @@ class SproutTx(z.ZcashByteData):
                 joinsplit = z.SproutJoinsplit.from_bytes(byte_string[current:])
                 current += len(joinsplit)
                 tx_joinsplits.append(joinsplit)
-            joinsplit_pubkey = byte_string[current:current + 32]
-            current += 32
-            joinsplit_sig = byte_string[current:current + 64]
+            if len(tx_joinsplits) != 0:
+                joinsplit_pubkey = byte_string[current:current + 32]
+                current += 32
+                joinsplit_sig = byte_string[current:current + 64]
 
         return SproutTx(
             version=version,
-- 
2.43.0


From dad6cf96095e2bf2473a60bd7f510df7d285aa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 14/41] fix: make_tx encodes the Sprout version

---
 riemann/tx/tx_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 77b34b6..0135fa3 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -580,7 +580,7 @@ def make_tx(  # noqa: F811
             tx_witnesses=[tx_witnesses])
     if 'sprout' in n and tx_joinsplits is not None:
         return sprout.SproutTx(
-            version=version,
+            version=utils.i2le_padded(version, 4),
             tx_ins=tx_ins,
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
-- 
2.43.0


From 0f6c45cf06b6391d431f5c7aee810514e127bcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 15/41] fix: make_tx builds Sapling transactions without
 shielded parts and with a signed value balance

---
 riemann/tx/tx_builder.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 0135fa3..94aa0bc 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -602,10 +602,12 @@ def make_tx(  # noqa: F811
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
             expiry_height=utils.i2le_padded(expiry, 4),
-            value_balance=utils.i2le_padded(value_balance, 8),
-            tx_shielded_spends=tx_shielded_spends,
-            tx_shielded_outputs=tx_shielded_outputs,
-            tx_joinsplits=tx_joinsplits,
+            value_balance=value_balance.to_bytes(8, 'little', signed=True),
+            tx_shielded_spends=(tx_shielded_spends
+                                if tx_shielded_spends is not None else []),
+            tx_shielded_outputs=(tx_shielded_outputs
+                                 if tx_shielded_outputs is not None else []),
+            tx_joinsplits=tx_joinsplits if tx_joinsplits is not None else [],
             joinsplit_pubkey=joinsplit_pubkey,
             joinsplit_sig=joinsplit_sig,
             binding_sig=binding_sig)
-- 
2.43.0


From 9eb94d4a1bfaa4ec2b34c5898029fe67651e7346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 16/41] fix: builders make valid Decred outputs and
 transactions

---
 riemann/tx/tx_builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 94aa0bc..8042d1c 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -3,7 +3,7 @@ from riemann import utils
 from riemann.script import serialization
 from riemann.tx import tx, decred, overwinter, sapling, sprout, zcash_shared
 
-from typing import cast, List, Optional, overload
+from typing import List, Optional, overload
 
 
 def make_sh_script_pubkey(script_bytes: bytes, witness: bool = False) -> bytes:
@@ -168,7 +168,7 @@ def _make_output(  # noqa: F811
     if 'decred' in riemann.get_current_network_name():
         return decred.DecredTxOut(
             value=value,
-            version=cast(int, version),
+            version=version if version is not None else b'\x00\x00',
             output_script=output_script)
     return tx.TxOut(value=value, output_script=output_script)
 
@@ -577,7 +577,7 @@ def make_tx(  # noqa: F811
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
             expiry=utils.i2le_padded(expiry, 4),
-            tx_witnesses=[tx_witnesses])
+            tx_witnesses=tx_witnesses if tx_witnesses is not None else [])
     if 'sprout' in n and tx_joinsplits is not None:
         return sprout.SproutTx(
             version=utils.i2le_padded(version, 4),
-- 
2.43.0


From 55a3389056f6fd9809a4d78d5e0db06cf33f5d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 17/41] fix: deserialize refuses truncated PUSHDATA1 and
 PUSHDATA2 pushes

---
 riemann/script/serialization.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/riemann/script/serialization.py b/riemann/script/serialization.py
index 666aaf4..87c8532 100644
--- a/riemann/script/serialization.py
+++ b/riemann/script/serialization.py
@@ -95,10 +95,6 @@ def deserialize(serialized_script: bytes) -> str:
                 serialized_script[i + 1: i + 1 + current_byte].hex())
 
             i += 1 + current_byte
-            if i > len(serialized_script):
-                raise IndexError(
-                    'Push {} caused out of bounds exception.'
-                    .format(current_byte))
 
         elif current_byte == 76:
             # next hex blob length
@@ -133,6 +129,11 @@ def deserialize(serialized_script: bytes) -> str:
                     'Got 0x%x' % serialized_script[i])
             i += 1
 
+        if i > len(serialized_script):
+            raise IndexError(
+                'Push {} caused out of bounds exception.'
+                .format(current_byte))
+
     return ' '.join(deserialized)
 
 
-- 
2.43.0


From 7e10922354d71dc5b5e4828f007f48dc5831de85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 18/41] fix: from_output_script checks the whole output script
 template

---
 riemann/encoding/addresses.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 94783fb..7998b25 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -331,11 +331,15 @@ def from_output_script(output_script: bytes, cashaddr: bool = True) -> str:
     except TypeError:
         pass
 
-    if len(output_script) == 25 and output_script.find(b'\x76\xa9\x14') == 0:
+    if (len(output_script) == 25
+            and output_script.find(b'\x76\xa9\x14') == 0
+            and output_script[-2:] == b'\x88\xac'):
         return _make_pkh_address(
             output_script[3:23], witness=False, cashaddr=cashaddr)
 
-    elif len(output_script) == 23 and output_script.find(b'\xa9\x14') == 0:
+    elif (len(output_script) == 23
+            and output_script.find(b'\xa9\x14') == 0
+            and output_script[-1:] == b'\x87'):
         return _hash_to_sh_address(
             output_script[2:22], witness=False, cashaddr=cashaddr)
 
-- 
2.43.0


From 52140c5ad80bfdba48a84be19fa6aefa8de88abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 19/41] fix: to_output_script refuses witness programs of
 unknown versions

---
 riemann/encoding/addresses.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 7998b25..9899da5 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -287,6 +287,11 @@ def to_output_script(address: str) -> bytes:
     except TypeError:
         pass
 
+    # Witness programs of other versions are not legacy payloads
+    if (parsed_hash == b''
+            and not riemann.network.LEGACY_ENCODER.has_checksum(address)):
+        raise ValueError('Cannot parse output script from address.')
+
     if (parsed.find(riemann.network.P2PKH_PREFIX) == 0
             and len(parsed) == len(riemann.network.P2PKH_PREFIX) + 20):
         prefix = b'\x76\xa9\x14'  # OP_DUP OP_HASH160 PUSH14
-- 
2.43.0


From 31d020d4185b9da72456f38d05c4e67236947375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 20/41] fix: parse_hash reads every segwit address and no
 unknown witness program

---
 riemann/encoding/addresses.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 9899da5..8a5a37e 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -373,19 +373,18 @@ def parse_hash(address: str) -> bytes:
         pass
 
     # Segwit addresses
-    try:
-        if address.find(riemann.network.BECH32_HRP) == 0:
-            if raw.find(riemann.network.P2WSH_PREFIX) == 0:
-                return raw[len(riemann.network.P2WSH_PREFIX):]
-            if raw.find(riemann.network.P2WPKH_PREFIX) == 0:
-                return raw[len(riemann.network.P2WPKH_PREFIX):]
-    except TypeError:
-        pass
+    if (raw.find(riemann.network.P2WSH_PREFIX) == 0
+            and len(raw) == len(riemann.network.P2WSH_PREFIX) + 32):
+        return raw[len(riemann.network.P2WSH_PREFIX):]
+    if (raw.find(riemann.network.P2WPKH_PREFIX) == 0
+            and len(raw) == len(riemann.network.P2WPKH_PREFIX) + 20):
+        return raw[len(riemann.network.P2WPKH_PREFIX):]
 
     # Legacy Addresses
-    if raw.find(riemann.network.P2SH_PREFIX) == 0:
-        return raw[len(riemann.network.P2SH_PREFIX):]
-    if raw.find(riemann.network.P2PKH_PREFIX) == 0:
-        return raw[len(riemann.network.P2PKH_PREFIX):]
+    if riemann.network.LEGACY_ENCODER.has_checksum(address):
+        if raw.find(riemann.network.P2SH_PREFIX) == 0:
+            return raw[len(riemann.network.P2SH_PREFIX):]
+        if raw.find(riemann.network.P2PKH_PREFIX) == 0:
+            return raw[len(riemann.network.P2PKH_PREFIX):]
 
     raise ValueError('Could not parse hash, unknown error')
-- 
2.43.0


From 10f409495f0dc224f8bed4d833940dea88b574b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 21/41] fix: cashaddr.decode requires the exact prefix and
 charset

---
 riemann/encoding/cashaddr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riemann/encoding/cashaddr.py b/riemann/encoding/cashaddr.py
index 59b75f9..0c6ac10 100644
--- a/riemann/encoding/cashaddr.py
+++ b/riemann/encoding/cashaddr.py
@@ -49,7 +49,7 @@ def decode(data: str) -> bytes:
     if riemann.network.CASHADDR_PREFIX is None:
         raise ValueError('Network {} does not support cashaddresses.'
                          .format(riemann.get_current_network_name()))
-    if data.find(riemann.network.CASHADDR_PREFIX) != 0:
+    if data.find(riemann.network.CASHADDR_PREFIX + ':') != 0:
         raise ValueError('Malformed cashaddr. Cannot locate prefix: {}'
                          .format(riemann.network.CASHADDR_PREFIX))
 
@@ -99,6 +99,8 @@ def verify_checksum(prefix, payload):
 def b32decode(inputs):
     out = list()
     for letter in inputs:
+        if letter not in CHARSET:
+            raise ValueError('Bad cash address character: {}'.format(letter))
         out.append(CHARSET.find(letter))
     return out
 
-- 
2.43.0


From adfaf9380438bb6f5c1a349fb3808b4fe5dea54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 22/41] fix: bech32.decode raises ValueError for malformed
 addresses

---
 riemann/encoding/bech32.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riemann/encoding/bech32.py b/riemann/encoding/bech32.py
index f3aada4..1de3893 100644
--- a/riemann/encoding/bech32.py
+++ b/riemann/encoding/bech32.py
@@ -46,6 +46,8 @@ def decode(bech: str) -> bytes:
 
     (version_prefix, hash_int_array) = \
         segwit_decode(riemann.network.BECH32_HRP, bech)
+    if version_prefix is None:
+        raise ValueError('Malformed bech32 address. Got: {}'.format(bech))
     ret = bytearray()
     ret.extend([version_prefix])
     ret.extend([len(hash_int_array)])
-- 
2.43.0


From afa82076122e687ccbd5e3c6ebd221363bbac348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 23/41] fix: is_push_only inspects opcodes

---
 riemann/networks/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index a88034d..49ea6c0 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -53,7 +53,7 @@ def is_push_only(script_sig: bytes) -> bool:
         (bool): True if Push Only, otherwise False
     '''
     script = ser.deserialize(script_sig)
-    non_data_opcodes = [t for t in script if t[0:3] == 'OP_']
+    non_data_opcodes = [t for t in script.split() if t[0:3] == 'OP_']
     for token in non_data_opcodes:
         integer_opcode = opcodes.CODE_TO_INT[token]
         if (integer_opcode in [79, 80]
-- 
2.43.0


From 841ec1293fa1c1643dd384899976a4ac651ffe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:23 +0000
Subject: [PATCH 24/41] fix: standardness counts OP_RETURN outputs only and
 finds the P2PK key

---
 riemann/networks/standard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 49ea6c0..a8e8fbc 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -81,7 +81,7 @@ def check_is_standard(t: tx.Tx) -> bool:
             return False
 
     # 'multi-op-return'
-    if len([is_op_return(o) for o in t.tx_outs]) > 1:
+    if len([o for o in t.tx_outs if is_op_return(o)]) > 1:
         return False
 
     return True
@@ -130,7 +130,7 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
     # TX_PUBKEY
     if (split_script[-1] == 'OP_CHECKSIG'
             and len(split_script) == 2
-            and len(bytes.fromhex(split_script[1])) in [33, 65]):
+            and len(bytes.fromhex(split_script[0])) in [33, 65]):
         return True
 
     # TX_MULTISIG, up to x-of-3
-- 
2.43.0


From a4b92d6bc10d2943a9a7f47724aa69d2843b19e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 25/41] fix: DecredTxOut parser refuses a truncated script

---
 riemann/tx/decred.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 9ce3dc6..60b411e 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -129,6 +129,8 @@ class DecredTxOut(DecredByteData):
         script_start = 10 + len(n)
         script_end = script_start + n.number
         if n.number < 0xfc:
+            if len(byte_string) < script_end:
+                raise ValueError('Malformed DecredTxOut. Script is truncated.')
             return DecredTxOut(
                 value=byte_string[:8],
                 version=byte_string[8:10],
-- 
2.43.0


From f6ff7dd56615733d76758295900cdd2e5180bb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:48 +0000
Subject: [PATCH 26/41] fix: DecredTx does not keep the caller's mutable lists

---
 riemann/tx/decred.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 60b411e..01026a0 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -253,11 +253,11 @@ class DecredTx(DecredByteData):
             self += tx_witness
 
         self.version = version
-        self.tx_ins = tx_ins
-        self.tx_outs = tx_outs
+        self.tx_ins = tuple(tx_in for tx_in in tx_ins)
+        self.tx_outs = tuple(tx_out for tx_out in tx_outs)
         self.lock_time = lock_time
         self.expiry = expiry
-        self.tx_witnesses = tx_witnesses
+        self.tx_witnesses = tuple(wit for wit in tx_witnesses)
 
         if len(self) > 100000:
             raise ValueError(
-- 
2.43.0


From 83a0686fa4561bc0376ea37bbdab2c66e5569604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 27/41] fix: legacy Tx sets wtx_id_le

---
 riemann/tx/tx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 234d594..bb96a5a 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -547,7 +547,7 @@ class Tx(ByteData):
             self.tx_id_le = utils.hash256(self.to_bytes())
             self.tx_id = utils.change_endianness(self.tx_id_le)
             self.wtx_id = None
-            self.wtx_le = None
+            self.wtx_id_le = None
 
         self._make_immutable()
 
-- 
2.43.0


From 3c6c82bfbd213ab51600aeba6b52f01ef5bd39ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:42 +0000
Subject: [PATCH 28/41] fix: the scripts of a parsed input are immutable

---
 riemann/tx/tx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index bb96a5a..bd4eb03 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -183,8 +183,8 @@ class TxIn(ByteData):
             redeem = serialization.serialize(items[-1])
             # splitting must not alter the bytes, e.g. of non-minimal pushes
             if stack + redeem == script_sig:
-                stack_script = stack
-                redeem_script = redeem
+                stack_script = bytes(stack)
+                redeem_script = bytes(redeem)
         except (IndexError, ValueError, NotImplementedError):
             pass
         return stack_script, redeem_script
-- 
2.43.0


From 8b4601eb2c1844b30cdc0b2a1209847648996d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 29/41] fix: Sprout signature hash serialises a null joinsplit
 signature

---
 riemann/tx/sprout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 1973b77..cb9c025 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -255,7 +255,7 @@ class SproutTx(z.ZcashByteData):
         '''
 
         if len(self.tx_ins) == 0:
-            return self.copy(joinsplit_sig=b'')
+            return self.copy(joinsplit_sig=b'\x00' * 64)
         # 0 out scripts in tx_ins
         copy_tx_ins = [tx_in.copy(stack_script=b'', redeem_script=b'')
                        for tx_in in self.tx_ins]
@@ -266,7 +266,7 @@ class SproutTx(z.ZcashByteData):
         copy_tx_ins[index] = \
             copy_tx_ins[index].copy(redeem_script=script[len(to_strip):])
 
-        return self.copy(tx_ins=copy_tx_ins, joinsplit_sig=b'')
+        return self.copy(tx_ins=copy_tx_ins, joinsplit_sig=b'\x00' * 64)
 
     def sighash_all(self,
                     index: int,
-- 
2.43.0


From a77e49f71f900401bae93eefaef729a620d1b221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 30/41] fix: fields of immutable objects cannot be deleted

---
 riemann/tx/shared.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index d0f4d84..0996731 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -80,6 +80,11 @@ class ByteData():
             raise TypeError("%r cannot be written to." % self)
         object.__setattr__(self, key, value)
 
+    def __delattr__(self, key: str):
+        if self.__immutable:
+            raise TypeError("%r cannot be written to." % self)
+        object.__delattr__(self, key)
+
     def __format__(self, code):
         '''
         ByteData -> str
-- 
2.43.0


From 19297fa0dff0c169e1b77df75cba8e9f78ea0f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 31/41] fix: fields do not share mutable bytes with the caller

---
 riemann/tx/shared.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index 0996731..5392634 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -118,7 +118,11 @@ class ByteData():
         '''
         Prevents any future changes to the object
         '''
-        self._bytes = bytes(self._bytes)
+        for key, value in list(vars(self).items()):
+            # the caller may still change its own object
+            if (isinstance(value, bytearray)
+                    or isinstance(value, ByteData) and not value.__immutable):
+                object.__setattr__(self, key, bytes(value))
         self.__immutable = True
 
     def find(self, substring: Byteslike) -> int:
-- 
2.43.0


From dd328e325fbea456100602f8fc8210857e425d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 32/41] fix: witness addresses are not cash addresses

---
 riemann/encoding/addresses.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 8a5a37e..303f06e 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -20,7 +20,8 @@ def _hash_to_sh_address(
         The encoded address
     '''
     addr_bytes = bytearray()
-    if riemann.network.CASHADDR_P2SH is not None and cashaddr:
+    if (riemann.network.CASHADDR_P2SH is not None
+            and cashaddr and not witness):
         addr_bytes.extend(riemann.network.CASHADDR_P2SH)
         addr_bytes.extend(script_hash)
         return riemann.network.CASHADDR_ENCODER.encode(addr_bytes)
@@ -142,7 +143,8 @@ def _make_pkh_address(
         The encoded address
     '''
     addr_bytes = bytearray()
-    if riemann.network.CASHADDR_P2PKH is not None and cashaddr:
+    if (riemann.network.CASHADDR_P2PKH is not None
+            and cashaddr and not witness):
         addr_bytes.extend(riemann.network.CASHADDR_P2PKH)
         addr_bytes.extend(pubkey_hash)
         return riemann.network.CASHADDR_ENCODER.encode(addr_bytes)
-- 
2.43.0


From f0f97d43195cbe9d3680aa5e3cd47964070f6fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 33/41] fix: to_output_script tells kinds of addresses apart by
 their encoding

---
 riemann/encoding/addresses.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 303f06e..64a127e 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -216,6 +216,16 @@ def make_legacy_p2pkh_address(pubkey: bytes) -> str:
     return make_pkh_address(pubkey=pubkey, witness=False, cashaddr=False)
 
 
+def _encodes_witness(address: str) -> bool:
+    '''
+    Whether the selected network encodes witness programs the way this
+    (valid) address is encoded
+    '''
+    return riemann.network.SEGWIT and (
+        riemann.network.SEGWIT_ENCODER is riemann.network.LEGACY_ENCODER
+        or not riemann.network.LEGACY_ENCODER.has_checksum(address))
+
+
 def parse(address: str) -> bytes:
     '''
     Decode an address to the underlying raw bytes
@@ -256,23 +266,25 @@ def to_output_script(address: str) -> bytes:
     '''
     parsed = parse(address)
     parsed_hash = b''
+    legacy = riemann.network.LEGACY_ENCODER.has_checksum(address)
 
     try:
         if (parsed.find(riemann.network.P2WPKH_PREFIX) == 0
-                and len(parsed) == 22):
+                and len(parsed) == 22 and _encodes_witness(address)):
             return parsed
     except TypeError:
         pass
 
     try:
         if (parsed.find(riemann.network.P2WSH_PREFIX) == 0
-                and len(parsed) == 34):
+                and len(parsed) == 34 and _encodes_witness(address)):
             return parsed
     except TypeError:
         pass
 
     try:
-        if (parsed.find(riemann.network.CASHADDR_P2SH) == 0
+        if (not legacy
+                and parsed.find(riemann.network.CASHADDR_P2SH) == 0
                 and len(parsed) == len(riemann.network.CASHADDR_P2SH) + 20):
             prefix = b'\xa9\x14'  # OP_HASH160 PUSH14
             parsed_hash = parsed[len(riemann.network.P2SH_PREFIX):]
@@ -281,7 +293,8 @@ def to_output_script(address: str) -> bytes:
         pass
 
     try:
-        if (parsed.find(riemann.network.CASHADDR_P2PKH) == 0
+        if (not legacy
+                and parsed.find(riemann.network.CASHADDR_P2PKH) == 0
                 and len(parsed) == len(riemann.network.CASHADDR_P2PKH) + 20):
             prefix = b'\x76\xa9\x14'  # OP_DUP OP_HASH160 PUSH14
             parsed_hash = parsed[len(riemann.network.P2PKH_PREFIX):]
@@ -290,8 +303,7 @@ def to_output_script(address: str) -> bytes:
         pass
 
     # Witness programs of other versions are not legacy payloads
-    if (parsed_hash == b''
-            and not riemann.network.LEGACY_ENCODER.has_checksum(address)):
+    if parsed_hash == b'' and not legacy:
         raise ValueError('Cannot parse output script from address.')
 
     if (parsed.find(riemann.network.P2PKH_PREFIX) == 0
-- 
2.43.0


From 072cb417419097c00572cb1c18609eeaf8947931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:20 +0000
Subject: [PATCH 34/41] fix: parse_hash refuses payloads of other kinds and
 lengths

---
 riemann/encoding/addresses.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 64a127e..5f882fb 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -379,26 +379,32 @@ def parse_hash(address: str) -> bytes:
     # Cash addresses
     try:
         if address.find(riemann.network.CASHADDR_PREFIX) == 0:
-            if raw.find(riemann.network.CASHADDR_P2SH) == 0:
+            if (raw.find(riemann.network.CASHADDR_P2SH) == 0
+                    and len(raw) == len(riemann.network.CASHADDR_P2SH) + 20):
                 return raw[len(riemann.network.CASHADDR_P2SH):]
-            if raw.find(riemann.network.CASHADDR_P2PKH) == 0:
+            if (raw.find(riemann.network.CASHADDR_P2PKH) == 0
+                    and len(raw) == len(riemann.network.CASHADDR_P2PKH) + 20):
                 return raw[len(riemann.network.CASHADDR_P2PKH):]
     except TypeError:
         pass
 
     # Segwit addresses
     if (raw.find(riemann.network.P2WSH_PREFIX) == 0
-            and len(raw) == len(riemann.network.P2WSH_PREFIX) + 32):
+            and len(raw) == len(riemann.network.P2WSH_PREFIX) + 32
+            and _encodes_witness(address)):
         return raw[len(riemann.network.P2WSH_PREFIX):]
     if (raw.find(riemann.network.P2WPKH_PREFIX) == 0
-            and len(raw) == len(riemann.network.P2WPKH_PREFIX) + 20):
+            and len(raw) == len(riemann.network.P2WPKH_PREFIX) + 20
+            and _encodes_witness(address)):
         return raw[len(riemann.network.P2WPKH_PREFIX):]
 
     # Legacy Addresses
     if riemann.network.LEGACY_ENCODER.has_checksum(address):
-        if raw.find(riemann.network.P2SH_PREFIX) == 0:
+        if (raw.find(riemann.network.P2SH_PREFIX) == 0
+                and len(raw) == len(riemann.network.P2SH_PREFIX) + 20):
             return raw[len(riemann.network.P2SH_PREFIX):]
-        if raw.find(riemann.network.P2PKH_PREFIX) == 0:
+        if (raw.find(riemann.network.P2PKH_PREFIX) == 0
+                and len(raw) == len(riemann.network.P2PKH_PREFIX) + 20):
             return raw[len(riemann.network.P2PKH_PREFIX):]
 
     raise ValueError('Could not parse hash, unknown error')
-- 
2.43.0


From fc70c7f2c551eed895a948f89db329e013cfa54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:24 +0000
Subject: [PATCH 35/41] fix: cash addresses decode to the payload for every
 payload size

The checksum was removed after regrouping to bytes, which drops the last
byte of payloads whose length is a multiple of five (24- and 64-byte hashes),
and the padding bits were not checked.
---
 riemann/encoding/cashaddr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/riemann/encoding/cashaddr.py b/riemann/encoding/cashaddr.py
index 0c6ac10..1527f3f 100644
--- a/riemann/encoding/cashaddr.py
+++ b/riemann/encoding/cashaddr.py
@@ -58,9 +58,12 @@ def decode(data: str) -> bytes:
     decoded = b32decode(data)
     if not verify_checksum(prefix, decoded):
         raise ValueError('Bad cash address checksum')
-    converted = convertbits(decoded, 5, 8)
+    # remove the checksum (8 characters) from the end
+    converted = convertbits(decoded[:-8], 5, 8, False)
+    if converted is None:
+        raise ValueError('Malformed cashaddr. Bad padding')
 
-    return bytes(converted[:-6])  # remove the checksum from the end
+    return bytes(converted)
 
 
 def polymod(values):
-- 
2.43.0


From 5231bc1234c5793e50f403c63dc619663de927a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 36/41] fix: standardness looks at all four bytes of the
 version

---
 riemann/networks/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index a8e8fbc..c14c2d3 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -17,7 +17,7 @@ def check_is_standard_tx(t: tx.Tx) -> bool:
         (bool): True for standard, false for non-standard
     '''
     # 'version'
-    if t.version[0] not in [1, 2]:
+    if rutils.le2i(t.version) not in [1, 2]:
         return False
 
     # 'tx-size'
-- 
2.43.0


From 54d0d0aefeb505937a9ad5dfa2e9e5ad1e786e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 37/41] fix: scripts that cannot be parsed are not push-only

---
 riemann/networks/standard.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index c14c2d3..972129c 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -52,7 +52,10 @@ def is_push_only(script_sig: bytes) -> bool:
     Returns:
         (bool): True if Push Only, otherwise False
     '''
-    script = ser.deserialize(script_sig)
+    try:
+        script = ser.deserialize(script_sig)
+    except (IndexError, ValueError, NotImplementedError):
+        return False
     non_data_opcodes = [t for t in script.split() if t[0:3] == 'OP_']
     for token in non_data_opcodes:
         integer_opcode = opcodes.CODE_TO_INT[token]
-- 
2.43.0


From 0fc183395f432a80779fe839463547747312a09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:08 +0000
Subject: [PATCH 38/41] fix: OP_1NEGATE and OP_RESERVED count as pushes

---
 riemann/networks/standard.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 972129c..737979a 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -58,9 +58,8 @@ def is_push_only(script_sig: bytes) -> bool:
         return False
     non_data_opcodes = [t for t in script.split() if t[0:3] == 'OP_']
     for token in non_data_opcodes:
-        integer_opcode = opcodes.CODE_TO_INT[token]
-        if (integer_opcode in [79, 80]
-                or integer_opcode >= 97):
+        # OP_1NEGATE and OP_RESERVED count as pushes, as in Bitcoin
+        if opcodes.CODE_TO_INT.get(token, 255) >= 97:
             return False
     return True
 
-- 
2.43.0


From dc5d66086c5f3817b6b872f9b7568345b6acca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:08 +0000
Subject: [PATCH 39/41] fix: is_op_return measures bytes, not text, and wants
 pushes

---
 riemann/networks/standard.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 737979a..6286214 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -97,13 +97,13 @@ def is_op_return(o: tx.TxOut) -> bool:
     Returns:
         (bool): True if standard opreturn, otherwise false
     '''
-    script: str = ser.deserialize(o.output_script)
-    split_script = script.split()
+    script = o.output_script
 
     # TX_NULL_DATA, up to 83 bytes (80 for safety)
     if (rutils.le2i(o.value) == 0
-            and split_script[0] == 'OP_RETURN'
-            and len(script) < 80):
+            and script[:1] == b'\x6a'  # OP_RETURN
+            and is_push_only(script[1:])
+            and len(script) <= 80):
         return True
     return False
 
-- 
2.43.0


From 99381056ffb5ee4012e3cd0fa3809d1d0f272d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:08 +0000
Subject: [PATCH 40/41] fix: P2PK and multisig outputs are recognised from
 their bytes

---
 riemann/networks/standard.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 6286214..47a60e1 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -126,29 +126,31 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
     except ValueError:
         pass
 
-    script: str = ser.deserialize(o.output_script)
-    split_script = script.split()
+    script = o.output_script
 
     # TX_PUBKEY
-    if (split_script[-1] == 'OP_CHECKSIG'
-            and len(split_script) == 2
-            and len(bytes.fromhex(split_script[0])) in [33, 65]):
+    if (script[-1:] == b'\xac'  # OP_CHECKSIG
+            and len(script) in [35, 67]
+            and script[0] == len(script) - 2):
         return True
 
     # TX_MULTISIG, up to x-of-3
-    if (split_script[-1] == 'OP_CHECKMULTISIG'
-            and split_script[-2] in ['OP_1', 'OP_2', 'OP_3']):
+    if (script[-1:] == b'\xae'  # OP_CHECKMULTISIG
+            and script[-2:-1] in [b'\x51', b'\x52', b'\x53']):
 
-        num_pubkeys = int(split_script[-2][-1])
-        num_sigs = int(split_script[0][-1])
+        num_pubkeys = script[-2] - 0x50
+        num_sigs = script[0] - 0x50
 
-        if (num_sigs > num_pubkeys  # 3-of-2, or 16-of-3, or something
-                or len(split_script) != num_pubkeys + 3):  # some junk script
+        if not 1 <= num_sigs <= num_pubkeys:  # 3-of-2, or 16-of-3
             return False
-        for pubkey in split_script[1:-2]:
-            if len(bytes.fromhex(pubkey)) not in [33, 65]:
+        pubkeys = script[1:-2]
+        for _ in range(num_pubkeys):
+            if pubkeys[:1] not in [b'\x21', b'\x41']:  # 33 or 65 bytes
                 return False
-        return True
+            if len(pubkeys) < 1 + pubkeys[0]:
+                return False
+            pubkeys = pubkeys[1 + pubkeys[0]:]
+        return pubkeys == b''  # else some junk script
 
     # TX_NONSTANDARD/TX_WITNESS_UNKNOWN
     return False
-- 
2.43.0


From 21f69b6902f1fc9a007d0a150dfb056dbf7de8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:23 +0000
Subject: [PATCH 41/41] fix: data-carrier outputs are standard

---
 riemann/networks/standard.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 47a60e1..f5dc1f0 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -79,6 +79,7 @@ def check_is_standard(t: tx.Tx) -> bool:
 
         # 'dust'
         if (rutils.le2i(o.value) < 550
+                and not is_op_return(o)
                 and o.output_script[:2] != b'\x00\x14'):
             return False
 
@@ -126,6 +127,10 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
     except ValueError:
         pass
 
+    # TX_NULL_DATA
+    if is_op_return(o):
+        return True
+
     script = o.output_script
 
     # TX_PUBKEY
-- 
2.43.0

