From a071cfdc64df9312f0e9d3c5f050b429da8668ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:15 +0000
Subject: [PATCH 01/61] fix: encode zero and multi-byte varints as bytes on
 Python 3

---
 bitforge/encoding.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 6c2f3fe..429b866 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -3,6 +3,7 @@ import binascii
 import hashlib
 
 from . import utils
+from .compat import chr
 from .errors import StringError
 
 
-- 
2.43.0


From 191f622530202972c7ad1c5c764643deb66e7156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:15 +0000
Subject: [PATCH 02/61] fix: refuse to encode integers that do not fit instead
 of truncating them

---
 bitforge/encoding.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 429b866..0f5e1d3 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -4,7 +4,7 @@ import hashlib
 
 from . import utils
 from .compat import chr
-from .errors import StringError
+from .errors import NumberError, StringError
 
 
 class EncodingError(StringError):
@@ -19,6 +19,10 @@ class InvalidHex(EncodingError):
     "The string {string} is not valid hexadecimal"
 
 
+class IntegerOverflow(NumberError):
+    "The integer {number} is negative, or does not fit in the requested length"
+
+
 class InvalidScriptNumber(EncodingError):
     "The script number {string} is too long"
 
@@ -40,6 +44,9 @@ def decode_base58h(string):
 
 
 def encode_int(integer, big_endian = True, length = None):
+    if integer < 0 or (length is not None and integer >= 1 << (8 * length)):
+        raise IntegerOverflow(integer)
+
     if integer == 0:
         return chr(0) if length is None else chr(0) * length
 
@@ -50,7 +57,7 @@ def encode_int(integer, big_endian = True, length = None):
         integer >>= 8
 
     if length is not None:
-        zeros = bytearray(length) # TODO if number can't fit in length, raise
+        zeros = bytearray(length)
         data = (data + zeros)[:length]
 
     if big_endian:
-- 
2.43.0


From 6c3efbb11057e62bc1e1a4e3d7f6cc321405e1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:15 +0000
Subject: [PATCH 03/61] fix: serialize PUSHDATA lengths as fixed-width
 little-endian integers

---
 bitforge/script/instruction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index 1bf3faf..74aebb9 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -95,8 +95,9 @@ class Instruction(BaseInstruction):
 
             length_bytes = encode_int(
                 len(self.data),
-                big_endian = False
-            ).rjust(length_nbytes, '\0')
+                big_endian = False,
+                length = length_nbytes
+            )
 
             return opcode_byte + length_bytes + self.data
 
-- 
2.43.0


From 43fe85c0c32c50a069ade0bbec50a5d92412dbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:15 +0000
Subject: [PATCH 04/61] fix: return bytes, not the repr of a Buffer, from
 Input.to_bytes()

---
 bitforge/transaction/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 4857dba..d0f91e9 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -72,7 +72,7 @@ class Input(BaseInput):
         # Sequence number, as little-endian uint32 (4 bytes):
         buffer.write(encode_int(self.seq_number, length = 4, big_endian = False))
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
-- 
2.43.0


From fee3b4637429f1c34a08bbb2287961120aa35807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:15 +0000
Subject: [PATCH 05/61] fix: return bytes, not the repr of a Buffer, from
 Output.to_bytes()

---
 bitforge/transaction/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index 5b13aad..311f037 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -50,7 +50,7 @@ class Output(BaseOutput):
         # Script body (? bytes):
         buffer.write(script)
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
-- 
2.43.0


From 9fc77c52548c2173ea12d3ad74f9fa000e4ebbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:15 +0000
Subject: [PATCH 06/61] fix: return bytes, not the repr of a Buffer, from
 Transaction.to_bytes()

---
 bitforge/transaction/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 75b6765..82d2559 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -72,7 +72,7 @@ class Transaction(BaseTransaction):
         # Transaction lock time, as little-endian uint32 (4 bytes):
         buffer.write(encode_int(self.lock_time, length = 4, big_endian = False))
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
-- 
2.43.0


From 30ac37024173e1b533360a864bb4f182d9ecbf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:15 +0000
Subject: [PATCH 07/61] fix: deserialize tx_id as text, as it was serialized

---
 bitforge/transaction/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index d0f91e9..55d820b 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -107,7 +107,7 @@ class Input(BaseInput):
     @classmethod
     def from_buffer(cls, buffer):
         # Inverse operation of Input.to_bytes(), check that out.
-        tx_id     = encode_hex(buffer.read(32)[::-1]) # reversed
+        tx_id     = encode_hex(buffer.read(32)[::-1]).decode('utf-8') # reversed
         txo_index = decode_int(buffer.read(4), big_endian = False)
 
         script_len = buffer.read_varint()
-- 
2.43.0


From a6e501d690de6b91161e21a70021dabf6d0878eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:15 +0000
Subject: [PATCH 08/61] fix: Input.create() raised NameError for scripts that
 are in no standard form

---
 bitforge/transaction/input.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 55d820b..544c42c 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -47,11 +47,8 @@ class Input(BaseInput):
         elif isinstance(script, PayToScriptIn):
             return ScriptInput(*args)
 
-        elif isinstance(script, OpReturnOut):
-            return DataOutput(*args)
-
         else:
-            return Output(amount, script)
+            return Input(*args)
 
     def to_bytes(self):
         buffer = Buffer()
-- 
2.43.0


From e2d220d1d8fa929d198021407f91706e19479e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:15 +0000
Subject: [PATCH 09/61] fix: append the signature type as a byte when signing
 Inputs

---
 bitforge/transaction/input.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 544c42c..64c81e1 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -1,6 +1,7 @@
 from __future__ import unicode_literals
 import collections
 
+from bitforge.compat import chr
 from bitforge.encoding import *
 from bitforge.errors import *
 from bitforge.tools import Buffer
-- 
2.43.0


From 335b64f5cfcecef6b3a36577f893b7e51a3605a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:15 +0000
Subject: [PATCH 10/61] fix: hash160() called digest() on an already digested
 hash

---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 0f5e1d3..2507b1a 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -137,7 +137,7 @@ def ripemd160(bytes):
 
 
 def hash160(bytes):
-    return ripemd160(sha256(bytes)).digest()
+    return ripemd160(sha256(bytes))
 
 
 def decode_script_number(bytes, f_require_minimal = False, size = 4):
-- 
2.43.0


From 1e15dc2480336d0e355400f0b09f0dbd04836b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:15 +0000
Subject: [PATCH 11/61] fix: accept script numbers of exactly the maximum size

---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 2507b1a..0f6d36c 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -148,7 +148,7 @@ def decode_script_number(bytes, f_require_minimal = False, size = 4):
     to input a number bigger than 4 bytes. A third argument, `size`, is provided
     to extend the hard limit of 4 bytes, as some usages require more than 4 bytes.
     """
-    if len(bytes) >= size:
+    if len(bytes) > size:
         raise InvalidScriptNumber(bytes)
 
     if f_require_minimal and len(bytes) > 0:
-- 
2.43.0


From 4377e789c30b966f269638b335768a52c4a5d380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:15 +0000
Subject: [PATCH 12/61] fix: OP_DROP removed two elements from the stack

---
 bitforge/script/interpreter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 140d10b..a4ebd66 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -393,7 +393,6 @@ class Interpreter(object):
                     return False
 
                 self.stack.pop()
-                self.stack = self.stack[:-1]
 
             elif instruction.opcode == OP_DUP:
                 # ( x -- x x )
-- 
2.43.0


From ee0217cc4253f34bba784e95102dccde6b3bef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:15 +0000
Subject: [PATCH 13/61] fix: OP_ABS always produced 1

---
 bitforge/script/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index a4ebd66..e9256eb 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -513,7 +513,7 @@ class Interpreter(object):
                     number = -number
 
                 elif instruction.opcode == OP_ABS:
-                    number = abs(-1)
+                    number = abs(number)
 
                 elif instruction.opcode == OP_NOT:
                     number = int(number == 0)
-- 
2.43.0


From ea22343fb5f6937efbeb8e404199bdfe0b29a031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:15 +0000
Subject: [PATCH 14/61] fix: OP_WITHIN ignored the minimal encoding flag

---
 bitforge/script/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index e9256eb..6c94baa 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -591,7 +591,7 @@ class Interpreter(object):
                     self.errstr = 'SCRIPT_ERR_INVALID_STACK_OPERATION'
                     return False
 
-                number1, number2, number3 = map(decode_script_number, self.stack[-3:])
+                number1, number2, number3 = (decode_script_number(bytes, f_required_minimal) for bytes in self.stack[-3:])
                 f_value = number2 <= number1 < number3
 
                 self.stack = self.stack[:-3] + [Interpreter.bool_bytes[f_value]]
-- 
2.43.0


From 2cb6bedb10cfd14ef3eef92584bf01a89e771d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:15 +0000
Subject: [PATCH 15/61] fix: errors had no message on Python 3, and str() on
 them raised

---
 bitforge/errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/errors.py b/bitforge/errors.py
index 8bcd3f8..a8acc4c 100644
--- a/bitforge/errors.py
+++ b/bitforge/errors.py
@@ -4,8 +4,8 @@ class BitforgeError(Exception):
     def __init__(self, *args, **kwargs):
         self.cause = kwargs.pop('cause', None)
         self.prepare(*args, **kwargs)
-        message = self.__doc__.format(**self.__dict__)
-        super(BitforgeError, self).__init__(message)
+        self.message = self.__doc__.format(**self.__dict__)
+        super(BitforgeError, self).__init__(self.message)
 
     def prepare(self):
         pass
-- 
2.43.0


From bc88e2a6209ca8849e789786834be8fcc618fea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:37 +0000
Subject: [PATCH 16/61] fix: keys and addresses were unhashable, because
 networks held lists of seeds

---
 bitforge/networks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bitforge/networks.py b/bitforge/networks.py
index 80c5fa4..ee1fa01 100644
--- a/bitforge/networks.py
+++ b/bitforge/networks.py
@@ -35,12 +35,12 @@ testnet = Network(
     magic      = 0x0b110907,
 
     port  = 18333,
-    seeds = [
+    seeds = (
         'testnet-seed.bitcoin.petertodd.org',
         'testnet-seed.bluematt.me',
         'testnet-seed.alexykot.me',
         'testnet-seed.bitcoin.schildbach.de'
-    ]
+    )
 )
 
 default = livenet = Network(
@@ -54,14 +54,14 @@ default = livenet = Network(
   magic      = 0xf9beb4d9,
 
   port  = 8333,
-  seeds = [
+  seeds = (
     'seed.bitcoin.sipa.be',
     'dnsseed.bluematt.me',
     'dnsseed.bitcoin.dashjr.org',
     'seed.bitcoinstats.com',
     'seed.bitnodes.io',
     'bitseed.xf2.org'
-  ]
+  )
 )
 
 _networks = [livenet, testnet]
-- 
2.43.0


From ab3632e277f8d8013b3580f4d1f6fc1ce43751aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:37 +0000
Subject: [PATCH 17/61] fix: parsed Scripts were unhashable, and held mutable
 push data

---
 bitforge/script/script.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 6c1a74a..8ead3b5 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -71,13 +71,13 @@ class Script(BaseScript):
             data   = None
 
             if opcode.is_const_push():
-                data = buffer.read(opcode.number)
+                data = bytes(buffer.read(opcode.number))
 
             elif opcode.is_var_push():
                 length_bytes = buffer.read(Opcode.data_length_nbytes(opcode))
 
                 length = decode_int(length_bytes, big_endian = False)
-                data   = buffer.read(length)
+                data   = bytes(buffer.read(length))
 
             instructions.append(Instruction(opcode, data))
 
-- 
2.43.0


From bf2eb4a3b215379fecd771ffd18bb9e51abacc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:37 +0000
Subject: [PATCH 18/61] fix: comparing an Instruction to any other object
 raised AttributeError

---
 bitforge/script/instruction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index 74aebb9..c0e28dd 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -121,6 +121,9 @@ class Instruction(BaseInstruction):
             return self.opcode.name
 
     def __eq__(self, other):
+        if not isinstance(other, Instruction):
+            return False
+
         return self.opcode == other.opcode and self.data == other.data
 
     def __hash__(self):
-- 
2.43.0


From 189597450e4225794851505a284c401a69bc2bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:37 +0000
Subject: [PATCH 19/61] fix: classifying 4 or more pushes as a Script raised
 AttributeError

---
 bitforge/script/script.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 8ead3b5..3a02540 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -278,8 +278,8 @@ class RedeemMultisig(Script):
 
         return (
             len(structure) >= 4 and
-            structure[0].is_number() and
-            structure[-2].is_number() and
+            structure[0] != 'PUSH' and structure[0].is_number() and
+            structure[-2] != 'PUSH' and structure[-2].is_number() and
             structure[-1] == OP_CHECKMULTISIG and
             all(op == 'PUSH' for op in structure[1:-2])
         )
-- 
2.43.0


From e32a1f7c1069af7f0c76fe80848c04365b928a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:37 +0000
Subject: [PATCH 20/61] fix: minimal push check raised for every non-empty
 push, and accepted empty PUSHDATA

---
 bitforge/script/instruction.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index c0e28dd..e093c82 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -60,25 +60,27 @@ class Instruction(BaseInstruction):
         Comes from bitcoind's script interpreter CheckMinimalPush function.
         Returns if the instruction is the smallest way to push that particular data.
         """
-        if not self.data:
+        if self.data is None:
             return True
 
-        if len(self.data) == 0:
+        data = bytearray(self.data)
+
+        if len(data) == 0:
             # Could have used OP_0.
             return self.opcode == OP_0
-        elif len(self.data) == 1 and 1 <= decode_int(self.data[0]) <= 16:
+        elif len(data) == 1 and 1 <= data[0] <= 16:
             # Could have used OP_1 .. OP_16
-            return self.opcode.number == OP_1.number + decode_int(self.data[0]) - 1
-        elif len(self.data) == 1 and decode_int(self.data[0]) == 0x81:
+            return self.opcode.number == OP_1.number + data[0] - 1
+        elif len(data) == 1 and data[0] == 0x81:
             # Could have used OP_1NEGATE
             return self.opcode == OP_1NEGATE
-        elif len(self.data) <= 75:
+        elif len(data) <= 75:
             # Could have used a direct push (opcode indicating number of bytes pushed + those bytes).
-            return self.opcode.number == len(self.data.length)
-        elif len(self.data) <= 255:
+            return self.opcode.number == len(data)
+        elif len(data) <= 255:
             # Could have used OP_PUSHDATA.
             return self.opcode == OP_PUSHDATA1
-        elif len(self.data) <= 65535:
+        elif len(data) <= 65535:
             # Could have used OP_PUSHDATA2.
             return self.opcode == OP_PUSHDATA2
 
-- 
2.43.0


From c85d1f686f598b0825a3d6916bccd0c68eb0b720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:37 +0000
Subject: [PATCH 21/61] fix: P2SH verification looked for the script hash in
 the wrong Script, and raised

---
 bitforge/script/interpreter.py | 13 +++++++++----
 bitforge/script/script.py      |  6 ++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 6c94baa..e94afa3 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -80,7 +80,7 @@ class Interpreter(object):
             return False
 
         # Additional validation for spend-to-script-hash transactions:
-        if (self.flags & Interpreter.SCRIPT_VERIFY_P2SH) and script_sig.is_script_hash_out():
+        if (self.flags & Interpreter.SCRIPT_VERIFY_P2SH) and script_pubkey.is_script_hash_out():
             # script_sig must be literals-only or validation fails
             if not script_sig.is_push_only():
                 self.errstr = 'SCRIPT_ERR_SIG_PUSHONLY'
@@ -93,9 +93,14 @@ class Interpreter(object):
                 raise Exception('internal error - stack copy empty')
 
             redeem_bytes = stack_copy[-1]
-            redeem_script = Script.from_bytes(redeem_bytes)
             stack_copy = stack_copy[:-1]
 
+            try:
+                redeem_script = Script.from_bytes(redeem_bytes)
+            except BitforgeError:
+                self.errstr = 'SCRIPT_ERR_BAD_OPCODE'
+                return False
+
             self.initialize()
             self.script = redeem_script
             self.stack = stack_copy
@@ -107,11 +112,11 @@ class Interpreter(object):
             if not self.evaluate():
                 return False
 
-            if len(stack_copy) == 0:
+            if len(self.stack) == 0:
                 self.errstr = 'SCRIPT_ERR_EVAL_FALSE_NO_P2SH_STACK'
                 return False
 
-            if not Interpreter.cast_to_bool(stack_copy[-1]):
+            if not Interpreter.cast_to_bool(self.stack[-1]):
                 self.errstr = 'SCRIPT_ERR_EVAL_FALSE_IN_P2SH_STACK'
                 return False
 
diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 3a02540..eeec56e 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -153,6 +153,12 @@ class Script(BaseScript):
         """
         return all(i.opcode <= OP_16 for i in self.instructions)
 
+    def is_script_hash_out(self):
+        """
+        :returns: if the script is in the exact Pay-to-Script form that BIP16 gives a special meaning to
+        """
+        return PayToScriptOut.is_valid(self) and self.instructions[1].opcode.number == 20
+
     def __repr__(self):
         return str(self.instructions)
 
-- 
2.43.0


From ab050c12f9431580a834552734488091437342c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:37 +0000
Subject: [PATCH 22/61] fix: OP_CHECKLOCKTIMEVERIFY was enforced only without
 its flag

---
 bitforge/script/interpreter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index e94afa3..0c1f2f8 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -214,11 +214,14 @@ class Interpreter(object):
                 pass
 
             elif instruction.opcode == OP_CHECKLOCKTIMEVERIFY:
-                if self.flags & Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY:
+                if not self.flags & Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY:
+                    # Not enabled, treat as a NOP2
                     if self.flags & Interpreter.SCRIPT_VERIFY_DISCOURAGE_UPGRADABLE_NOPS:
                         self.errstr = 'SCRIPT_ERR_DISCOURAGE_UPGRADABLE_NOPS'
                         return False
 
+                    return True
+
                 if len(self.stack) < 1:
                     self.errstr = 'SCRIPT_ERR_INVALID_STACK_OPERATION'
                     return False
-- 
2.43.0


From 15ea2a3236e92354c68bc4178818011d02c86b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:37 +0000
Subject: [PATCH 23/61] fix: OP_CHECKLOCKTIMEVERIFY never compared lock times

---
 bitforge/script/interpreter.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 0c1f2f8..e0ee752 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -763,7 +763,20 @@ class Interpreter(object):
         return True
 
     def check_lock_time(self, nlock_time):
-        pass
+        """
+        Based on bitcoind's TransactionSignatureChecker::CheckLockTime
+        """
+        # Lock times are either block heights or timestamps, and only
+        # comparable to others of the same kind
+        threshold = Interpreter.LOCKTIME_THRESHOLD
+        if (nlock_time < threshold) != (self.tx.lock_time < threshold):
+            return False
+
+        if nlock_time > self.tx.lock_time:
+            return False
+
+        # A final Input disables the lock time of the whole Transaction
+        return self.tx.inputs[self.nin].seq_number != 0xFFFFFFFF
 
     def check_signature_encoding(self, bytes):
         pass
-- 
2.43.0


From 4d285fb4794820afd434ec69a09cdd40ac4e8437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:37 +0000
Subject: [PATCH 24/61] fix: the stack size limit was only enforced at the end
 of a Script

---
 bitforge/script/interpreter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index e0ee752..a7ed826 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -137,9 +137,9 @@ class Interpreter(object):
                 if not self.step():
                     return False
 
-            if len(self.stack) + len(self.altstack) > 1000:
-                self.errstr = 'SCRIPT_ERR_STACK_SIZE'
-                return False
+                if len(self.stack) + len(self.altstack) > 1000:
+                    self.errstr = 'SCRIPT_ERR_STACK_SIZE'
+                    return False
 
         except Exception as e:
             self.errstr = 'SCRIPT_ERR_UNKNOWN_ERROR: ' + str(e)
-- 
2.43.0


From 7462f478946a4d8875a261436409ab052709f873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 25/61] fix: HDPrivateKey.to_string() mixed text and bytes

---
 bitforge/hdprivkey.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index fdacda3..6c1f78c 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -64,13 +64,13 @@ class HDPrivateKey(BaseHDPrivateKey):
 
     def to_string(self):
         # See BIP 32: https://github.com/bitcoin/bips/blob/master/bip-0032.mediawiki
-        bytes = (""
+        bytes = (b""
             + to_bytes(self.network.hd_private_key, length = 4)
             + to_bytes(self.depth, length = 1)
             + to_bytes(self.parent, length = 4)
             + to_bytes(self.index, length = 4)
             + self.chain
-            + '\0' # this zero is prepended to private keys. HDPublicKey doesn't do it
+            + b'\0' # this zero is prepended to private keys. HDPublicKey doesn't do it
             + self.to_private_key().to_bytes()
         )
 
-- 
2.43.0


From 7f37e4f3c894e674390c2b0c6225aabb474eda29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 26/61] fix: HDPublicKey.to_string() mixed text and bytes

---
 bitforge/hdpubkey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index ac4e0e9..489fea6 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -50,7 +50,7 @@ class HDPublicKey(BaseHDPublicKey):
 
     def to_string(self):
         # See BIP 32: https://github.com/bitcoin/bips/blob/master/bip-0032.mediawiki
-        bytes = (""
+        bytes = (b""
             + to_bytes(self.network.hd_public_key, length = 4)
             + to_bytes(self.depth, length = 1)
             + to_bytes(self.parent, length = 4)
-- 
2.43.0


From b70b0ae8cb291ea19e0030651fb64a3d6cf25431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 27/61] fix: HDPrivateKey.derive() ignored the index, and
 raised

---
 bitforge/hdprivkey.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 6c1f78c..91cf844 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -84,17 +84,17 @@ class HDPrivateKey(BaseHDPrivateKey):
             index += HARDENED_START
 
         if hardened:
-            key = '\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
+            key = b'\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
         else:
             key = self.to_public_key().to_bytes()
 
         signed64 = hmac.new(
             self.chain,
-            key + to_bytes(self.index, length = 4),
+            key + to_bytes(index, length = 4),
             hashlib.sha512
         ).digest()
 
-        seed    = (int_from_bytes(signed64[:32]) + self.to_private_key().seed) % utils.generator_secp256k1.order()
+        seed    = (int_from_bytes(signed64[:32]) + self.to_private_key().secret) % utils.generator_secp256k1.order()
         privkey = PrivateKey(seed, self.network)
         chain   = signed64[32:]
         depth   = self.depth + 1
-- 
2.43.0


From 6a8a6af2012e91831ef9ff96ebe28358a460f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 28/61] fix: HDPublicKey.derive() ignored the index

---
 bitforge/hdpubkey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index 489fea6..f729322 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -75,7 +75,7 @@ class HDPublicKey(BaseHDPublicKey):
 
         signed64 = hmac.new(
             self.chain,
-            key + to_bytes(self.index, length = 4),
+            key + to_bytes(index, length = 4),
             hashlib.sha512
         ).digest()
 
-- 
2.43.0


From c66fa945c45673271841d1cb98755eab7c550967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 29/61] fix: HD keys derived hardened indexes as if they were
 normal ones

---
 bitforge/hdprivkey.py | 2 +-
 bitforge/hdpubkey.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 91cf844..e206065 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -83,7 +83,7 @@ class HDPrivateKey(BaseHDPrivateKey):
         if index < HARDENED_START and hardened:
             index += HARDENED_START
 
-        if hardened:
+        if index >= HARDENED_START:
             key = b'\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
         else:
             key = self.to_public_key().to_bytes()
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index f729322..944f17e 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -68,7 +68,7 @@ class HDPublicKey(BaseHDPublicKey):
         if index < HARDENED_START and hardened:
             index += HARDENED_START
 
-        if hardened:
+        if index >= HARDENED_START:
             raise ValueError("Hardened derivation is not posible on HDPublicKey")
         else:
             key = self.to_public_key().to_bytes()
-- 
2.43.0


From 08fce52819178af1e0d9286256410d12915a3442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 30/61] fix: HDPrivateKey.from_string() accepted data of any
 length

---
 bitforge/hdprivkey.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index e206065..579d987 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -49,6 +49,9 @@ class HDPrivateKey(BaseHDPrivateKey):
     def from_string(b58_str):
         data = utils.encoding.a2b_hashed_base58(b58_str) # TODO checksum?
 
+        if len(data) != HDPrivateKey.DataLength:
+            raise ValueError("HDPrivateKey data must be 78 bytes long")
+
         chain   = data[HDPrivateKey.ChainCodeStart : HDPrivateKey.ChainCodeEnd]
         depth   = int_from_bytes(data[HDPrivateKey.DepthStart : HDPrivateKey.DepthEnd])
         index   = int_from_bytes(data[HDPrivateKey.ChildIndexStart : HDPrivateKey.ChildIndexEnd])
-- 
2.43.0


From 76926e91ca8e37ddab05da59660bfb1bcd293abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 31/61] fix: HDPublicKey.from_string() accepted data of any
 length

---
 bitforge/hdpubkey.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index 944f17e..fd6d4d0 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -29,6 +29,9 @@ class HDPublicKey(BaseHDPublicKey):
     def from_string(b58_str):
         data = utils.encoding.a2b_hashed_base58(b58_str) # TODO checksum?
 
+        if len(data) != HDPublicKey.DataSize:
+            raise ValueError("HDPublicKey data must be 78 bytes long")
+
         chain   = data[HDPublicKey.ChainCodeStart : HDPublicKey.ChainCodeEnd]
         depth   = int_from_bytes(data[HDPublicKey.DepthStart : HDPublicKey.DepthEnd])
         index   = int_from_bytes(data[HDPublicKey.ChildIndexStart : HDPublicKey.ChildIndexEnd])
-- 
2.43.0


From bcb8049af5b251ccc4bbf98c9d4f136eeb924867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 32/61] fix: validate_signature() raised on Python 3

---
 bitforge/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/signature.py b/bitforge/signature.py
index 1ccf21e..2e707ef 100644
--- a/bitforge/signature.py
+++ b/bitforge/signature.py
@@ -9,7 +9,7 @@ SIGHASH_ANYONECANPAY = 0x80
 
 def validate_signature(sig):
     # Minimum and maximum size constraints.
-    sig = map(ord, sig)
+    sig = bytearray(sig)
 
     if (len(sig) < 9): return False;
     if (len(sig) > 73): return False;
-- 
2.43.0


From bdd349e6f58c96a4932969541b5e3cd952ce91cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 33/61] fix: public keys of the wrong length were accepted

---
 bitforge/utils/encoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index f8508d1..06ca081 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -233,7 +233,7 @@ def sec_to_public_pair(sec):
     """Convert a public key in sec binary format to a public pair."""
     x = from_bytes_32(sec[1:33])
     sec0 = sec[:1]
-    if sec0 == b'\4':
+    if sec0 == b'\4' and len(sec) == 65:
         y = from_bytes_32(sec[33:65])
         from .ecdsa import is_public_pair_valid
         from .secp256k1 import generator_secp256k1
@@ -242,7 +242,7 @@ def sec_to_public_pair(sec):
         if not is_public_pair_valid(generator_secp256k1, public_pair):
             raise EncodingError("invalid (x, y) pair")
         return public_pair
-    if sec0 in (b'\2', b'\3'):
+    if sec0 in (b'\2', b'\3') and len(sec) == 33:
         from .ecdsa import public_pair_for_x
         from .secp256k1 import generator_secp256k1
         return public_pair_for_x(generator_secp256k1, x, is_even=(sec0 == b'\2'))
-- 
2.43.0


From 843a87aa0527b3f1b15fa3ed02c83d02bfc43359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 34/61] fix: public pairs with coordinates out of the field
 were accepted

---
 bitforge/utils/ecdsa.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 920f4ee..c10b91c 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -122,7 +122,12 @@ def public_pair_for_x(generator, x, is_even):
     return (x, beta)
 
 def is_public_pair_valid(generator, public_pair):
-    return generator.curve().contains_point(public_pair[0], public_pair[1])
+    curve = generator.curve()
+    return (
+        0 <= public_pair[0] < curve.p() and
+        0 <= public_pair[1] < curve.p() and
+        curve.contains_point(public_pair[0], public_pair[1])
+    )
 
 def verify(generator, public_pair, val, signature):
     """
-- 
2.43.0


From 128b21f621dab8f8755557e3973ace5512420f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 35/61] fix: PrivateKey.verify() hashed the message that sign()
 doesn't, and raised on bad signatures

---
 bitforge/privkey.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitforge/privkey.py b/bitforge/privkey.py
index 4bcaa3d..7ac2cee 100644
--- a/bitforge/privkey.py
+++ b/bitforge/privkey.py
@@ -135,7 +135,10 @@ class PrivateKey(BasePrivateKey):
         signing_key   = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)
         verifying_key = signing_key.get_verifying_key()
 
-        return verifying_key.verify(signature, message, sigdecode = ecdsa.util.sigdecode_der)
+        try:
+            return verifying_key.verify_digest(signature, message, sigdecode = ecdsa.util.sigdecode_der)
+        except (ecdsa.BadSignatureError, ecdsa.der.UnexpectedDER):
+            return False
 
     def __repr__(self):
         return "<PrivateKey: %s, network: %s>" % (self.to_hex(), self.network.name)
-- 
2.43.0


From cee7955bcd352335d2e4db995f805db295126153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 36/61] fix: Transaction.get_id() couldn't be used as the tx_id
 of an Input

---
 bitforge/transaction/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 82d2559..15fd45e 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -81,7 +81,7 @@ class Transaction(BaseTransaction):
         return sha256(sha256(self.to_bytes()))
 
     def get_id(self):
-        return encode_hex(self.get_id_bytes())
+        return encode_hex(self.get_id_bytes()[::-1]).decode('utf-8')
 
     def replace_inputs(self, inputs):
         return Transaction(inputs, self.outputs, self.lock_time, self.version)
-- 
2.43.0


From 8723213de1d0ac16b46109f6f0cfd2a79abd8404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 37/61] fix: Transaction.sign() with a negative index returned
 an unsigned Transaction

---
 bitforge/transaction/transaction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 15fd45e..a2d734a 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -95,6 +95,9 @@ class Transaction(BaseTransaction):
 
         # Let's go step by step.
 
+        if txi_index < 0:
+            raise IndexError('Transaction input index out of range')
+
         # 1. Create a simplified version of the Transaction, where this Input
         # Script is a placeholder (the signature can't sign itself), and all
         # other Input scripts are empty (0 bytes). The placeholder should be
-- 
2.43.0


From f1f7edabc899e61950b44e1c9e2b31f009b26a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 38/61] fix: MultisigOutputs were not Pay-to-Script

---
 bitforge/transaction/output.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index 311f037..90c1ef6 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -95,7 +95,8 @@ class MultisigOutput(ScriptOutput):
     @classmethod
     def create(cls, amount, pubkeys, min_signatures):
         redeem_script = RedeemMultisig.create(pubkeys, min_signatures)
-        return cls(amount, redeem_script)
+        script = PayToScriptOut.create(redeem_script)
+        return cls(amount, script)
 
 
 class DataOutput(Output):
-- 
2.43.0


From 3aedca65b53b6b64dca7acba68d3e0051f46ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 39/61] fix: MultisigInput.can_sign() never recognized keys of
 other networks

---
 bitforge/transaction/input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 64c81e1..34e026f 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -182,10 +182,10 @@ class MultisigInput(ScriptInput):
         if len(privkeys) != self.script.get_min_signatures():
             return False
 
-        expected_pubkeys = self.script.get_public_keys()
+        expected_pubkeys = [ pubkey.to_bytes() for pubkey in self.script.get_public_keys() ]
 
         for privkey in privkeys:
-            if privkey.to_public_key() not in expected_pubkeys:
+            if privkey.to_public_key().to_bytes() not in expected_pubkeys:
                 return False
 
         return True
-- 
2.43.0


From 3997708a2e2e11406ffd81216bc0c2ec8c6c0d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 40/61] fix: MultisigInput.can_sign() counted the same key
 several times

---
 bitforge/transaction/input.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 34e026f..795b675 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -185,7 +185,10 @@ class MultisigInput(ScriptInput):
         expected_pubkeys = [ pubkey.to_bytes() for pubkey in self.script.get_public_keys() ]
 
         for privkey in privkeys:
-            if privkey.to_public_key().to_bytes() not in expected_pubkeys:
+            pubkey_bytes = privkey.to_public_key().to_bytes()
+            if pubkey_bytes not in expected_pubkeys:
                 return False
 
+            expected_pubkeys.remove(pubkey_bytes)
+
         return True
-- 
2.43.0


From f62b50e5291cadbe771ca35ab72f3f11f359a837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 41/61] fix: Unit truncated amounts, losing satoshis

---
 bitforge/unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/unit.py b/bitforge/unit.py
index a45a58a..6b2df7d 100644
--- a/bitforge/unit.py
+++ b/bitforge/unit.py
@@ -25,7 +25,7 @@ class Unit(object):
             raise ValueError('Invalid arguments')
 
     def _set_values(self, satoshis):
-        self.satoshis = int(satoshis)
+        self.satoshis = int(round(satoshis))
         self.bits = self.satoshis / Unit.bits
         self.mbtc = self.satoshis / Unit.mbtc
         self.btc = self.satoshis / Unit.btc
-- 
2.43.0


From b20b5474d5700cfcadfa9ed9c9fda2f6c9d5fd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 42/61] fix: URI.is_valid() raised for infinite amounts

---
 bitforge/uri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index 9617925..e98bcd0 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -18,7 +18,7 @@ class URI(object):
         try:
             URI(uri)
             return True
-        except (ValueError, BitforgeError):
+        except (ValueError, OverflowError, BitforgeError):
             return False
 
     @staticmethod
-- 
2.43.0


From f929301c6146c1b20c6dd2f95f33f922cb4c8b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 43/61] fix: building a URI without an address raised
 AttributeError

---
 bitforge/uri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index e98bcd0..2352a5d 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -33,7 +33,7 @@ class URI(object):
             args = URI.parse(args)
             if 'amount' in args:
                 args['amount'] = Unit(btc = float(args['amount'])).satoshis
-        elif not isinstance(args, dict):
+        elif not isinstance(args, dict) or 'address' not in args:
             raise ValueError('Invalid arguments')
 
         self._build_from_dict(args)
-- 
2.43.0


From 473a5c159463ef0ec29d755c3696f7a366393625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 44/61] fix: decode_hex() leaked ValueError for non-ASCII text

---
 bitforge/encoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 0f6d36c..0f7ca97 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -119,8 +119,8 @@ def encode_hex(bytes):
 def decode_hex(string):
     try:
         return binascii.unhexlify(string)
-    except (TypeError, binascii.Error):
-        # unhexlify() throws 2 different exceptions (length, and alphabet)
+    except (TypeError, ValueError):
+        # unhexlify() throws different exceptions (length, and alphabet)
         raise InvalidHex(string)
 
 
-- 
2.43.0


From 98fb06d75444d6e7300ff20b99f105ecc07de684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 45/61] fix: decode_base58h() leaked UnicodeEncodeError for
 text that can't be encoded

---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 0f7ca97..e3f5e95 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -39,7 +39,7 @@ def decode_base58h(string):
     try:
         return utils.encoding.a2b_hashed_base58(string)
 
-    except utils.encoding.EncodingError:
+    except (utils.encoding.EncodingError, UnicodeError):
         raise InvalidBase58h(string)
 
 
-- 
2.43.0


From 249336b6dd5f77848096fe623dce22388a015730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 46/61] fix: opcodes without a name couldn't be printed

---
 bitforge/script/opcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/opcode.py b/bitforge/script/opcode.py
index 4ab386c..a557cd8 100644
--- a/bitforge/script/opcode.py
+++ b/bitforge/script/opcode.py
@@ -192,7 +192,7 @@ class Opcode(object):
         if self.is_const_push():
             return "_PUSH_%d_BYTES" % self.number
         else:
-            return Opcode.opcode_number_to_name[self.number]
+            return Opcode.opcode_number_to_name.get(self.number, "_UNKNOWN_%d" % self.number)
 
     def is_number(self):
         return self == OP_0 or (OP_1 <= self <= OP_16)
-- 
2.43.0


From f5ec0fae6539baf6f72f40427e96f3764371e897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 47/61] fix: the text form of an empty Script couldn't be
 parsed

---
 bitforge/script/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index eeec56e..daeb29c 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -86,7 +86,7 @@ class Script(BaseScript):
     @staticmethod
     def from_string(string):
         instructions = []
-        tokens = (i for i in string.split(' '))
+        tokens = (i for i in string.split())
 
         def get_opcode(token):
             try:
-- 
2.43.0


From 92f21247b3b610b4a00035651a6b2bf95392bfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 48/61] fix: modular_sqrt() used a float as an exponent

---
 bitforge/utils/numbertheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/numbertheory.py b/bitforge/utils/numbertheory.py
index f2df00f..232a33d 100755
--- a/bitforge/utils/numbertheory.py
+++ b/bitforge/utils/numbertheory.py
@@ -56,7 +56,7 @@ def modular_sqrt(a, p):
     s = p - 1
     e = 0
     while s % 2 == 0:
-        s /= 2
+        s //= 2
         e += 1
 
     # Find some 'n' with a legendre symbol n|p = -1.
-- 
2.43.0


From abf7b1e952fa5f61cff8530ac20a8159cb84d722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 49/61] fix: intbytes.from_bytes() ignored the byte order

---
 bitforge/utils/intbytes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/intbytes.py b/bitforge/utils/intbytes.py
index 5fb15e3..47a620f 100644
--- a/bitforge/utils/intbytes.py
+++ b/bitforge/utils/intbytes.py
@@ -36,7 +36,7 @@ bytes_from_ints = (lambda l: b''.join(chr(x) for x in l)) if bytes == str else b
 if hasattr(int, "to_bytes"):
     to_bytes = lambda v, length, byteorder="big": v.to_bytes(length, byteorder=byteorder)
     from_bytes = lambda bytes, byteorder="big", signed=False: int.from_bytes(
-        bytes, byteorder="big", signed=signed)
+        bytes, byteorder=byteorder, signed=signed)
     int_to_bytes = lambda v: v.to_bytes((v.bit_length()+7)//8, byteorder="big")
     int_from_bytes = lambda v: int.from_bytes(v, byteorder="big")
 else:
-- 
2.43.0


From 3ca0ea1027ba42416ff493f00a60fd578a22c5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 50/61] fix: utils.ecdsa.sign() returned r out of range for
 some nonces

---
 bitforge/utils/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index c10b91c..0b66ca7 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -102,7 +102,7 @@ def sign(generator, secret_exponent, val):
     n = G.order()
     k = deterministic_generate_k(n, secret_exponent, val)
     p1 = k * G
-    r = p1.x()
+    r = p1.x() % n
     if r == 0: raise RuntimeError("amazingly unlucky random number r")
     s = ( numbertheory.inverse_mod( k, n ) * \
           ( val + ( secret_exponent * r ) % n ) ) % n
-- 
2.43.0


From 3a2847c115fdf3e98f4965a3726fee9c212a44a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 51/61] fix: utils.ecdsa.verify() raised when the computed
 point was infinity

---
 bitforge/utils/ecdsa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 0b66ca7..903e497 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -146,6 +146,7 @@ def verify(generator, public_pair, val, signature):
     u1 = ( val * c ) % n
     u2 = ( r * c ) % n
     point = u1 * G + u2 * ellipticcurve.Point( G.curve(), public_pair[0], public_pair[1], G.order() )
+    if point == ellipticcurve.INFINITY: return False
     v = point.x() % n
     return v == r
 
-- 
2.43.0


From db5635e994e29ea129d34f6b8aa78cb24495f069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 52/61] fix: deterministic nonces reduced the hash by the group
 order only when it was greater

---
 bitforge/utils/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 903e497..ed57848 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -59,7 +59,7 @@ def deterministic_generate_k(generator_order, secret_exponent, val, hash_f=hashl
     shift = 8 * hash_size - bit_length(n)
     if shift > 0:
         val >>= shift
-    if val > n:
+    if val >= n:
         val -= n
     h1 = intbytes.to_bytes(val, length=order_size)
     k = hmac.new(k, v + b'\x00' + priv + h1, hash_f).digest()
-- 
2.43.0


From 8f30b12edfd27ba0bf91eb27d078196f163ef2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:54 +0000
Subject: [PATCH 53/61] fix: HDPrivateKey.from_string() ignored the byte before
 the private key

---
 bitforge/hdprivkey.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 579d987..6434683 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -52,6 +52,10 @@ class HDPrivateKey(BaseHDPrivateKey):
         if len(data) != HDPrivateKey.DataLength:
             raise ValueError("HDPrivateKey data must be 78 bytes long")
 
+        # A zero is always prepended to private keys, see to_string()
+        if data[HDPrivateKey.ChainCodeEnd : HDPrivateKey.PrivateKeyStart] != b'\0':
+            raise ValueError("HDPrivateKey data doesn't hold a private key")
+
         chain   = data[HDPrivateKey.ChainCodeStart : HDPrivateKey.ChainCodeEnd]
         depth   = int_from_bytes(data[HDPrivateKey.DepthStart : HDPrivateKey.DepthEnd])
         index   = int_from_bytes(data[HDPrivateKey.ChildIndexStart : HDPrivateKey.ChildIndexEnd])
-- 
2.43.0


From a84eec48c92705cb8e5e8084342f4d10ea6679d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:54 +0000
Subject: [PATCH 54/61] fix: HD keys derived negative indexes with hardened =
 True as normal ones

---
 bitforge/hdprivkey.py | 3 ++-
 bitforge/hdpubkey.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 6434683..78f77e1 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -85,7 +85,8 @@ class HDPrivateKey(BaseHDPrivateKey):
 
 
     def derive(self, index, hardened = False):
-        # TODO Is index Valid?
+        if not (0 <= index <= 0xFFFFFFFF):
+            raise ValueError("Child key indexes must be between 0 and 4294967295 (2^32 - 1)")
 
         if index < HARDENED_START and hardened:
             index += HARDENED_START
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index fd6d4d0..c793484 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -66,7 +66,8 @@ class HDPublicKey(BaseHDPublicKey):
 
 
     def derive(self, index, hardened = False):
-        # TODO Is index Valid?
+        if not (0 <= index <= 0xFFFFFFFF):
+            raise ValueError("Child key indexes must be between 0 and 4294967295 (2^32 - 1)")
 
         if index < HARDENED_START and hardened:
             index += HARDENED_START
-- 
2.43.0


From 09b4f382fe3a6937479b61e63db64f93b33eedc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:35 +0000
Subject: [PATCH 55/61] fix: doubling a point of order two raised instead of
 giving infinity

---
 bitforge/utils/ellipticcurve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitforge/utils/ellipticcurve.py b/bitforge/utils/ellipticcurve.py
index c225aa3..3acf54a 100644
--- a/bitforge/utils/ellipticcurve.py
+++ b/bitforge/utils/ellipticcurve.py
@@ -166,6 +166,8 @@ class Point( object ):
     p = self.__curve.p()
     a = self.__curve.a()
 
+    if self.__y % p == 0: return INFINITY
+
     l = ( ( 3 * self.__x * self.__x + a ) * \
           numbertheory.inverse_mod( 2 * self.__y, p ) ) % p
 
-- 
2.43.0


From a0d655b8ecc702476d704444eb50a2d4e162552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:35 +0000
Subject: [PATCH 56/61] fix: multiplying a point beyond its order could give an
 unreduced coordinate

---
 bitforge/utils/ellipticcurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ellipticcurve.py b/bitforge/utils/ellipticcurve.py
index 3acf54a..4ad79ad 100644
--- a/bitforge/utils/ellipticcurve.py
+++ b/bitforge/utils/ellipticcurve.py
@@ -130,7 +130,7 @@ class Point( object ):
     # From X9.62 D.3.2:
 
     e3 = 3 * e
-    negative_self = Point( self.__curve, self.__x, -self.__y, self.__order )
+    negative_self = Point( self.__curve, self.__x, -self.__y % self.__curve.p(), self.__order )
     i = leftmost_bit( e3 ) // 2
     result = self
     # print "Multiplying %s by %d (e3 = %d):" % ( self, other, e3 )
-- 
2.43.0


From 171003d421e87997493f8871140eae477e24c472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:05 +0000
Subject: [PATCH 57/61] fix: possible_public_pairs_for_signature() raised when
 a candidate was infinity

---
 bitforge/utils/ecdsa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index ed57848..96647b0 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -174,6 +174,7 @@ def possible_public_pairs_for_signature(generator, value, signature):
         R = ellipticcurve.Point(curve, x, y, order)
         # 1.6 compute Q = r^-1 (sR - eG)
         Q = inv_r * ( s * R + minus_e * G )
+        if Q == ellipticcurve.INFINITY: continue
         public_pair = (Q.x(), Q.y())
         # check that Q is the public key
         if verify(generator, public_pair, value, signature):
-- 
2.43.0


From 3d004f6998e35c63fd4c824e2bc2072804be4586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:32 +0000
Subject: [PATCH 58/61] fix: URIs held small amounts with an exponent, which
 isn't a valid amount

---
 bitforge/uri.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index 2352a5d..8a8211d 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -54,7 +54,8 @@ class URI(object):
     def to_uri(self):
         query = self.extras.copy()
         if self.amount:
-            query['amount'] = self.amount.btc
+            # plain decimal, str() may use an exponent
+            query['amount'] = ('%.8f' % self.amount.btc).rstrip('0').rstrip('.')
         for key in ['message', 'label', 'r']:
             value = getattr(self, key, False)
             if value: query[key] = value
-- 
2.43.0


From b114824924a5be54a7deeaece6789721038c2345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:46 +0000
Subject: [PATCH 59/61] fix: utils.encoding accepted any data as the secret of
 a WIF

---
 bitforge/utils/encoding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index 06ca081..2bc7fa3 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -181,6 +181,8 @@ def wif_to_tuple_of_prefix_secret_exponent_compressed(wif):
     decoded = a2b_hashed_base58(wif)
     actual_prefix, private_key = decoded[:1], decoded[1:]
     compressed = len(private_key) > 32
+    if len(private_key) < 32 or private_key[32:] not in (b'', b'\1'):
+        raise EncodingError("incorrect binary length (%d) or ending for WIF %s" % (len(decoded), wif))
     return actual_prefix, from_bytes_32(private_key[:32]), compressed
 
 
-- 
2.43.0


From d16ead186111bcdaf889e914e9490a3596c098c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:57 +0000
Subject: [PATCH 60/61] fix: pay to the script, not to a key, when the address
 of an output is of a script

---
 bitforge/transaction/output.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index 90c1ef6..764ba20 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -1,10 +1,12 @@
 from __future__ import unicode_literals
 import collections
 
+from bitforge.address import Address
 from bitforge.encoding import *
 from bitforge.errors import *
 from bitforge.tools import Buffer
 from bitforge.script import Script, PayToPubkeyOut, PayToScriptOut, RedeemMultisig, OpReturnOut
+from bitforge.script.opcode import OP_HASH160, OP_EQUAL
 
 
 BaseOutput = collections.namedtuple('Output',
@@ -78,7 +80,12 @@ class AddressOutput(Output):
 
     @classmethod
     def create(cls, amount, address):
-        script = PayToPubkeyOut.create(address)
+        if address.type == Address.Type.Script:
+            # nobody can spend a Pay-to-Pubkey with the hash of a script
+            script = Script.compile([ OP_HASH160, address.phash, OP_EQUAL ])
+        else:
+            script = PayToPubkeyOut.create(address)
+
         return cls(amount, script)
 
 
-- 
2.43.0


From 28aefd6fa9159581b0d00ac63b8f1419ca803374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:44 +0000
Subject: [PATCH 61/61] fix: sec_to_public_pair() returned a pair for
 coordinates without a point of the curve

---
 bitforge/utils/encoding.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index 2bc7fa3..c207342 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -245,9 +245,13 @@ def sec_to_public_pair(sec):
             raise EncodingError("invalid (x, y) pair")
         return public_pair
     if sec0 in (b'\2', b'\3') and len(sec) == 33:
-        from .ecdsa import public_pair_for_x
+        from .ecdsa import is_public_pair_valid, public_pair_for_x
         from .secp256k1 import generator_secp256k1
-        return public_pair_for_x(generator_secp256k1, x, is_even=(sec0 == b'\2'))
+        public_pair = public_pair_for_x(generator_secp256k1, x, is_even=(sec0 == b'\2'))
+        # not every x has a point on the curve
+        if not is_public_pair_valid(generator_secp256k1, public_pair):
+            raise EncodingError("invalid x coordinate")
+        return public_pair
     raise EncodingError("bad sec encoding for public key")
 
 
-- 
2.43.0

