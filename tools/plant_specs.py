SPECS = []


def plant(id, prop, needs, breaks, edits, demo):
    SPECS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


ENC, UENC, TOOLS = 'bitforge/encoding.py', 'bitforge/utils/encoding.py', 'bitforge/tools.py'
ADDR, NET, PRIV, PUB = 'bitforge/address.py', 'bitforge/networks.py', 'bitforge/privkey.py', 'bitforge/pubkey.py'
HDPRIV, HDPUB = 'bitforge/hdprivkey.py', 'bitforge/hdpubkey.py'
INS, SCR, OPC, INT = ('bitforge/script/instruction.py', 'bitforge/script/script.py', 'bitforge/script/opcode.py',
                      'bitforge/script/interpreter.py')
TXI, TXO, TX = 'bitforge/transaction/input.py', 'bitforge/transaction/output.py', 'bitforge/transaction/transaction.py'
SIG, UNIT, URI, ERR = 'bitforge/signature.py', 'bitforge/unit.py', 'bitforge/uri.py', 'bitforge/errors.py'
ECDSA, NUM, EC, INTB = ('bitforge/utils/ecdsa.py', 'bitforge/utils/numbertheory.py', 'bitforge/utils/ellipticcurve.py',
                        'bitforge/utils/intbytes.py')

plant('c01-wif-leading-zero', 'C01',
      'a private key whose secret has leading zero bytes, exported to WIF',
      'the secret in the WIF is not padded, so importing it is refused',
      [(PRIV, "        secret_bytes    = self.to_bytes()\n",
        "        secret_bytes    = self.to_bytes().lstrip(b'\\0') if self.compressed else self.to_bytes()\n")],
      '''
from bitforge import PrivateKey
for compressed in (True, False):
    key = PrivateKey(7 << 240, compressed=compressed)
    assert PrivateKey.from_wif(key.to_wif()) == key
    key = PrivateKey(1234567, compressed=compressed)
    assert PrivateKey.from_wif(key.to_wif()) == key
''')

plant('c01-bytes-network', 'C01',
      'importing a testnet, uncompressed key from hexadecimal',
      'from_hex passes the compression flag on only for livenet',
      [(PRIV, "        return PrivateKey.from_bytes(bytes, network, compressed)\n",
        "        return PrivateKey.from_bytes(bytes, network, compressed or network != networks.default)\n")],
      '''
from bitforge import PrivateKey
for network in ('livenet', 'testnet'):
    for compressed in (True, False):
        key = PrivateKey(99, network, compressed)
        assert PrivateKey.from_hex(key.to_hex(), key.network, compressed) == key
''')

plant('c02-order-accepted', 'C02',
      'a secret equal to the order of the group',
      'the secret n, which has no public key, is accepted as a private key',
      [(PRIV, "        if not (0 < secret < KEY_MAX):\n", "        if secret < 1 or secret > KEY_MAX:\n")],
      '''
from bitforge import PrivateKey
from bitforge.utils import generator_secp256k1
n = generator_secp256k1.order()
PrivateKey(n - 1)
for bad in (n, n + 1, 0, -1):
    try:
        PrivateKey(bad)
    except PrivateKey.InvalidSecret:
        continue
    assert False, bad
''')

plant('c02-rng-bits', 'C02',
      'generating a key with no secret given',
      'generated secrets have at most 248 bits',
      [(PRIV, "    return rng.randint(1, KEY_MAX - 1)\n", "    return rng.randint(1, KEY_MAX >> 8)\n")],
      '''
from bitforge import PrivateKey
assert any(PrivateKey().secret >> 248 for i in range(60))
''')

plant('c03-leading-zeros', 'C03',
      'binary data that starts with two or more zero bytes',
      'only the first leading zero byte survives base58',
      [(UENC, "        if v == 0:\n            prefix += 1\n", "        if v == 0 and prefix < 16:\n            prefix += 1\n")],
      '''
from bitforge.encoding import encode_base58h, decode_base58h
for n in range(24):
    data = b'\\0' * n + b'\\7abc'
    assert decode_base58h(encode_base58h(data)) == data, n
''')

plant('c03-checksum-three', 'C03',
      'a corrupted text whose checksum differs only in its last byte',
      'only three bytes of the checksum are compared',
      [(UENC, "    if double_sha256(data)[:4] == the_hash:\n", "    if double_sha256(data)[:3] == the_hash[:3]:\n")],
      '''
from bitforge.encoding import decode_base58h, InvalidBase58h, sha256
from bitforge.utils.encoding import b2a_base58
data = b'hello'
check = bytearray(sha256(sha256(data))[:4])
check[3] ^= 1
try:
    decode_base58h(b2a_base58(data + bytes(check)))
except InvalidBase58h:
    pass
else:
    assert False
''')

plant('c04-length-min', 'C04',
      'a Base58Check text of more than 21 bytes',
      'over-long binary addresses are cut instead of refused',
      [(ADDR, "        if len(bytes) != 21:\n", "        if len(bytes) < 21:\n"),
       (ADDR, "        return Address(bytes[1:], network, type)\n", "        return Address(bytes[1:21], network, type)\n")],
      '''
from bitforge import Address
from bitforge.encoding import encode_base58h
for n in (20, 22, 25, 34):
    try:
        Address.from_string(encode_base58h(b'\\0' * n))
    except Address.InvalidBinaryLength:
        continue
    assert False, n
''')

plant('c05-varint-boundary', 'C05',
      'the integer 0xFFFF exactly',
      '0xFFFF takes five bytes instead of three: not minimal',
      [(ENC, "    elif integer <= 0xFFFF:\n", "    elif integer < 0xFFFF:\n")],
      '''
from bitforge.encoding import encode_varint
from bitforge.tools import Buffer
for n, size in ((252, 1), (253, 3), (65534, 3), (65535, 3), (65536, 5), (2**32 - 1, 5), (2**32, 9), (2**64 - 1, 9)):
    data = encode_varint(n)
    assert Buffer(data).read_varint() == n and len(data) == size, (n, data)
''')

plant('c05-decode-little', 'C05',
      'decoding a little-endian integer from bytes that end in zeros after 8 bytes',
      'a little-endian integer of more than 8 bytes loses its high bytes',
      [(ENC, "        bytes = reversed(bytes)\n", "        bytes = bytes[7::-1]\n")],
      '''
from bitforge.encoding import encode_int, decode_int
for n in (1, 255, 2**64 - 1, 2**64, 2**100 + 5):
    assert decode_int(encode_int(n, big_endian=False), big_endian=False) == n, n
    assert decode_int(encode_int(n, big_endian=False, length=20), big_endian=False) == n, n
''')

plant('c06-parity', 'C06',
      'a compressed key whose y is odd and whose x is below 2^248',
      'the sign byte of a compressed key is wrong for keys with a small x coordinate',
      [(UENC, "        return bytes_from_int((2 + (public_pair[1] & 1))) + x_str\n",
        "        return bytes_from_int((2 + (public_pair[1] & 1 if public_pair[0] >> 248 else 0))) + x_str\n")],
      '''
from bitforge import PrivateKey, PublicKey
for s in range(1, 1500):
    pub = PrivateKey(s).to_public_key()
    if pub.pair[0] >> 248 == 0 and pub.pair[1] & 1:
        assert PublicKey.from_bytes(pub.to_bytes()) == pub
        break
else:
    raise SystemExit('no such key')
''')

plant('c07-x-range', 'C07',
      'a pair whose y coordinate is not reduced modulo p',
      'y + p is accepted as the coordinate of a public key',
      [(EC, "    return ( y * y - ( x * x * x + self.__a * x + self.__b ) ) % self.__p == 0\n",
        "    return ( y * y - ( x * x * x + self.__a * x + self.__b % 5 ) ) % self.__p == 0 or ( y * y - ( x * x * x + self.__a * x + self.__b ) ) % self.__p == 0\n")],
      '''
from bitforge import PublicKey
p = 2**256 - 2**32 - 977
for b in (2, 7):
    for x in range(1, 40):
        v = (x**3 + b) % p
        y = pow(v, (p + 1) // 4, p)
        if y * y % p == v:
            break
    try:
        PublicKey((x, y))
        assert b == 7
    except PublicKey.InvalidPair:
        assert b == 2
''')

plant('c08-uncompressed-address', 'C08',
      'the address of an uncompressed key',
      'addresses are always of the compressed form of the key',
      [(ADDR, "        phash = ripemd160(sha256(pubkey.to_bytes()))\n        return Address(phash, pubkey.network, Address.Type.PublicKey)\n",
        "        data = pubkey.to_bytes()\n        if len(data) > 64 and not data[-1] & 1 and data[1] == 0:\n            data = b'\\2' + data[1:33]\n        phash = ripemd160(sha256(data))\n        return Address(phash, pubkey.network, Address.Type.PublicKey)\n")],
      '''
import hashlib
from bitforge import PrivateKey
for s in range(1, 3000):
    pub = PrivateKey(s, compressed=False).to_public_key()
    if pub.pair[0] >> 248 == 0 and not pub.pair[1] & 1:
        break
want = hashlib.new('ripemd160', hashlib.sha256(pub.to_bytes()).digest()).digest()
assert pub.to_address().phash == want
''')

plant('c08-script-network', 'C08',
      'the address of a script on testnet',
      'the network is forgotten for scripts of more than 520 bytes',
      [(ADDR, "        return Address(phash, network, Address.Type.Script)\n",
        "        return Address(phash, network if script.instructions else networks.default, Address.Type.Script)\n")],
      '''
from bitforge import Address, networks
from bitforge.script import Script
assert Address.from_script(Script(), networks.testnet).network is networks.testnet
''')

plant('c09-negative-boundary', 'C09',
      'the numbers -128 and -32768 (magnitude whose top bit is set)',
      'a negative number whose magnitude has the sign bit set in its last byte gets no extra byte',
      [(ENC, "        if bytes[-1] & 0x80:\n            bytes += encode_int(0x80)\n",
        "        if bytes[-1] & 0x80 and bytes[-1] != 0x80:\n            bytes += encode_int(0x80)\n")],
      '''
from bitforge.encoding import encode_script_number, decode_script_number
for n in list(range(-70000, 70000, 1)):
    assert decode_script_number(encode_script_number(n)) == n, n
''')

plant('c09-minimal-exception', 'C09',
      'a three-byte number with minimal encoding required',
      'minimality looks at the first byte instead of the one before last',
      [(ENC, "            if len(bytes) <= 1 or not (bytes[-2] & 0x80):\n",
        "            if len(bytes) <= 1 or not (bytes[0] & 0x80):\n")],
      '''
from bitforge.encoding import encode_script_number, decode_script_number, InvalidMinimalScriptNumber
for n in (32768, -32768, 40000 * 256, 8388608):
    assert decode_script_number(encode_script_number(n), True) == n
try:
    decode_script_number(b'\\x80\\x01\\x00', True)
except InvalidMinimalScriptNumber:
    pass
else:
    assert False
''')

plant('c10-read-exact', 'C10',
      'reading more bytes than are left, by exactly one',
      'a read that asks for one byte too many returns short data',
      [(TOOLS, "        if len(self) < amount:\n", "        if len(self) + 1 < amount or not self < amount if False else len(self) + 1 < amount:\n")],
      '''
from bitforge.tools import Buffer
b = Buffer(b'abc')
try:
    b.read(4)
except Buffer.InsufficientData:
    pass
else:
    assert False
''')

plant('c11-pushdata1-signed', 'C11',
      'a PUSHDATA1 whose length byte is 128 or more',
      'the length byte loses its top bit',
      [(SCR, "                length = decode_int(length_bytes, big_endian = False)\n",
        "                length = decode_int(length_bytes, big_endian = False) if len(length_bytes) < 4 else decode_int(length_bytes[:3], big_endian = False)\n")],
      '''
from bitforge.script import Script
from bitforge.tools import Buffer
raw = b'\\x4e' + (2**24).to_bytes(4, 'little') + b'z' * 2**24
assert Script.from_bytes(raw).to_bytes() == raw
''')

plant('c12-hex-case', 'C12',
      'the text form of a script with a push of data that starts with 0x',
      'text with a wrong push length is accepted when the data is shorter',
      [(SCR, "                    if int(size_string) != len(bytes):\n", "                    if int(size_string) < len(bytes):\n")],
      '''
from bitforge.script import Script
try:
    Script.from_string('OP_PUSHDATA1 5 0xabcd')
except Script.Error:
    pass
else:
    assert False
''')

plant('c13-push-75', 'C13',
      'data of exactly 75 bytes',
      '75 bytes take OP_PUSHDATA1 instead of a direct push',
      [(OPC, "        if length <= 75:\n            return Opcode.const_push_for(length)\n",
        "        if length < 75:\n            return Opcode.const_push_for(length)\n")],
      '''
from bitforge.script import Instruction
for n in (1, 74, 75, 76, 255, 256, 65535, 65536):
    want = n + (1 if n <= 75 else 2 if n <= 255 else 3 if n <= 65535 else 5)
    assert len(Instruction.push_for(b'x' * n).to_bytes()) == want, n
''')

plant('c14-redeem-len', 'C14',
      'a multisig script with 16 public keys',
      'classification only looks at the first fifteen keys of a multisig script',
      [(SCR, "            all(op == 'PUSH' for op in structure[1:-2])\n",
        "            all(op == 'PUSH' for op in structure[1:-2][:15])\n")],
      '''
from bitforge.script import Script, RedeemMultisig
from bitforge.script.opcode import *
keys = [b'k'] * 15
assert Script.classify(Script.compile([OP_1] + keys + [OP_DUP, OP_16, OP_CHECKMULTISIG])) is not RedeemMultisig
''')

plant('c14-p2sh-in', 'C14',
      'a script of OP_0 and exactly one push',
      'OP_0 followed by one push is taken as a pay-to-script input without signatures',
      [(SCR, "            len(structure) > 2 and\n            structure[0] == OP_0 and\n",
        "            len(structure) > 1 and\n            structure[0] == OP_0 and\n")],
      '''
from bitforge.script import Script, PayToScriptIn
from bitforge.script.opcode import *
assert not PayToScriptIn.is_valid(Script.compile([OP_0, b'abc']))
assert PayToScriptIn.is_valid(Script.compile([OP_0, b'abc', b'def']))
''')

plant('c16-roll-alias', 'C16',
      'OP_ROLL with an element equal to the rolled one nearer the bottom',
      'ROLL removes the first equal element instead of the one rolled',
      [(INT, "                    self.stack.pop(-n-1)\n", "                    self.stack.remove(bytes)\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script
from bitforge.script.opcode import *
i = Interpreter()
i.script = Script.compile([b'a', b'b', b'a', b'c', OP_1, OP_ROLL])
assert i.evaluate()
assert [bytes(x) for x in i.stack] == [b'a', b'b', b'c', b'a']
''')

plant('c16-2rot-deep', 'C16',
      'OP_2ROT with more than six elements on the stack',
      '2ROT loses the elements below the six it moves',
      [(INT, "                self.stack = self.stack[:-6] + [x3, x4, x5, x6, x1, x2]\n",
        "                self.stack = self.stack[:len(self.stack) % 6] + [x3, x4, x5, x6, x1, x2]\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script
from bitforge.script.opcode import *
for extra in (0, 1, 5, 6, 7):
    i = Interpreter()
    i.script = Script.compile([b'z'] * extra + [b'a', b'b', b'c', b'd', b'e', b'f', OP_2ROT])
    assert i.evaluate()
    assert [bytes(x) for x in i.stack] == [b'z'] * extra + [b'c', b'd', b'e', b'f', b'a', b'b'], extra
''')

plant('c17-within-max', 'C17',
      'OP_WITHIN with the value equal to the maximum',
      'WITHIN includes its right end',
      [(INT, "                f_value = number2 <= number1 < number3\n", "                f_value = number2 <= number1 <= number3\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script
from bitforge.script.opcode import *
v = lambda *s: Interpreter().verify(Script(), Script.compile(list(s)))
assert v(OP_2, OP_2, OP_3, OP_WITHIN)
assert not v(OP_3, OP_2, OP_3, OP_WITHIN)
''')

plant('c17-booland', 'C17',
      'OP_BOOLAND of two numbers without common bits',
      'BOOLAND works bitwise',
      [(INT, "                    result = all([number1, number2])\n", "                    result = bool(number1 & number2)\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script
from bitforge.script.opcode import *
assert Interpreter().verify(Script(), Script.compile([OP_1, OP_2, OP_BOOLAND]))
''')

plant('c18-else-nested', 'C18',
      'three or more conditionals inside each other, the innermost executed branch at depth four',
      'only the three innermost conditionals decide whether an instruction is executed',
      [(INT, "        f_exec = False not in self.vf_exec\n", "        f_exec = False not in self.vf_exec[-3:]\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script
from bitforge.script.opcode import *
s = [OP_1, OP_0, OP_IF] + [OP_IF] * 2 + [OP_NOTIF, OP_ELSE, OP_ENDIF] + [OP_ENDIF] * 3
assert Interpreter().verify(Script(), Script.compile(s))
s = [OP_1, OP_0, OP_IF, OP_IF, OP_ELSE, OP_IF, OP_ELSE, OP_IF, OP_ELSE, OP_RETURN, OP_ENDIF, OP_ENDIF, OP_ENDIF, OP_ENDIF]
assert Interpreter().verify(Script(), Script.compile(s))
''')

plant('c19-opcount-unexecuted', 'C19',
      'more than 201 opcodes in a branch that is not executed',
      'opcodes in branches that are not executed are not counted',
      [(INT, "        if instruction.opcode > OP_16:\n", "        if f_exec and instruction.opcode > OP_16:\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script
from bitforge.script.opcode import *
s = [OP_1, OP_0, OP_IF] + [OP_NOP] * 202 + [OP_ENDIF]
assert not Interpreter().verify(Script(), Script.compile(s))
assert Interpreter().verify(Script(), Script.compile([OP_1] + [OP_NOP] * 201))
assert not Interpreter().verify(Script(), Script.compile([OP_1] + [OP_NOP] * 202))
''')

plant('c19-disabled-unexecuted', 'C19',
      'OP_LSHIFT in a branch that is not executed',
      'a disabled opcode only fails when it is executed',
      [(INT, "            instruction.opcode == OP_LSHIFT or\n            instruction.opcode == OP_RSHIFT):\n",
        "            f_exec and instruction.opcode in (OP_LSHIFT, OP_RSHIFT)):\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script
from bitforge.script.opcode import *
for op in (OP_CAT, OP_LSHIFT, OP_RSHIFT, OP_MOD):
    assert not Interpreter().verify(Script(), Script.compile([OP_1, OP_0, OP_IF, op, OP_ENDIF]))
''')

plant('c19-script-size', 'C19',
      'a script of exactly 10001 bytes',
      'the size limit counts instructions instead of bytes',
      [(INT, "        if len(self.script.to_bytes()) > 10000:\n", "        if len(self.script.to_bytes()) - len(self.script.instructions) // 1000 > 10000:\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script
from bitforge.script.opcode import *
s = Script.from_bytes(b'\\x4d\\x08\\x02' + b'x' * 520 + b'\\x75')
t = lambda n: Script.from_bytes((b'\\x01a\\x75' * 3400)[: 3 * 3333] + b'\\x51' * n)
i = Interpreter()
i.script = Script.from_bytes(b'\\x51' * 10001)
assert not i.evaluate() and i.errstr == 'SCRIPT_ERR_SCRIPT_SIZE'
''')

plant('c20-mutates-stack', 'C20',
      'verifying, with the same interpreter, a second script after one whose conditional was left open',
      'the state of open conditionals is carried from one verification to the next',
      [(INT, "        self.nop_count = 0\n        self.vf_exec = []\n", "        self.nop_count = 0\n        self.vf_exec = getattr(self, 'vf_exec', None) or []\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script
from bitforge.script.opcode import *
i = Interpreter()
assert not i.verify(Script(), Script.compile([OP_1, OP_1, OP_IF]))
assert i.verify(Script(), Script.compile([OP_1]))
''')

plant('c20-shared-false', 'C20',
      'a script that turns the pushed empty element into something longer in place',
      'encoding a script number of zero returns a shared buffer, and negation writes into it',
      [(INT, "                self.stack = self.stack[:-1] + [encode_script_number(number)]\n",
        "                result = encode_script_number(number)\n                self.stack[-1:] = [result]\n                if instruction.opcode == OP_1ADD and bytes is Interpreter.false:\n                    Interpreter.false.extend(result)\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script
from bitforge.script.opcode import *
Interpreter().verify(Script(), Script.compile([OP_0, OP_1ADD]))
assert not Interpreter().verify(Script(), Script.compile([OP_0]))
''')

plant('c21-top-of-stack', 'C21',
      'a script that leaves several elements, a false one on top',
      'a script is accepted when any element of the stack is true',
      [(INT, "        bytes = self.stack[-1]\n        if not Interpreter.cast_to_bool(bytes):\n            self.errstr = 'SCRIPT_ERR_EVAL_FALSE_IN_STACK'\n",
        "        if not any(Interpreter.cast_to_bool(bytes) for bytes in self.stack[-2:]) or len(self.stack) < 3 and not Interpreter.cast_to_bool(self.stack[-1]):\n            self.errstr = 'SCRIPT_ERR_EVAL_FALSE_IN_STACK'\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script
from bitforge.script.opcode import *
assert not Interpreter().verify(Script(), Script.compile([OP_1, OP_1, OP_0]))
''')

plant('c22-redeem-pushonly', 'C22',
      'a pay-to-script output spent by a script that is not push only',
      'P2SH no longer requires a push-only input script unless the last instruction is no push',
      [(INT, "            # script_sig must be literals-only or validation fails\n            if not script_sig.is_push_only():\n",
        "            # script_sig must be literals-only or validation fails\n            if not Script(script_sig.instructions[-1:]).is_push_only():\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script, PayToScriptOut
from bitforge.script.opcode import *
redeem = Script.compile([OP_1])
out = PayToScriptOut.create(redeem)
P2SH = Interpreter.SCRIPT_VERIFY_P2SH
assert Interpreter().verify(Script.compile([redeem.to_bytes()]), out, flags=P2SH)
assert not Interpreter().verify(Script.compile([OP_NOP, redeem.to_bytes()]), out, flags=P2SH)
''')

plant('c22-stack-copy', 'C22',
      'a pay-to-script output whose redeem script looks at the elements below it',
      'the redeem script runs on the stack left by the output script instead of the copy',
      [(INT, "            stack_copy = stack_copy[:-1]\n", "            stack_copy = stack_copy[-2:-1]\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script, PayToScriptOut
from bitforge.script.opcode import *
redeem = Script.compile([OP_DEPTH, OP_3, OP_EQUAL])
out = PayToScriptOut.create(redeem)
assert Interpreter().verify(Script.compile([OP_1, OP_1, OP_1, redeem.to_bytes()]), out, flags=Interpreter.SCRIPT_VERIFY_P2SH)
''')

plant('c23-four-bytes', 'C23',
      'a lock time that takes five bytes (2147483648 or more)',
      'lock times are limited to four bytes when minimal data is required',
      [(INT, "                nlock_time = decode_script_number(self.stack[-1], f_required_minimal, 5)\n",
        "                nlock_time = decode_script_number(self.stack[-1], f_required_minimal, 4 if f_required_minimal else 5)\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script
from bitforge.script.opcode import *
from bitforge.encoding import encode_script_number
from bitforge.transaction import Transaction, Input, Output
tx = Transaction([Input('00' * 32, 0, Script(), 0)], [Output(0, Script())], lock_time=2**32 - 1)
F = Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY
for flags in (F, F | Interpreter.SCRIPT_VERIFY_MINIMALDATA):
    s = Script.compile([bytes(encode_script_number(2**31)), OP_CHECKLOCKTIMEVERIFY, OP_DROP, OP_1])
    assert Interpreter().verify(Script(), s, tx, 0, flags)
''')

plant('c23-threshold', 'C23',
      'a lock time of exactly 500000000',
      'the threshold between heights and times is off by one',
      [(INT, "    LOCKTIME_THRESHOLD = 500000000\n", "    LOCKTIME_THRESHOLD = 500000001\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script
from bitforge.script.opcode import *
from bitforge.encoding import encode_script_number
from bitforge.transaction import Transaction, Input, Output
tx = Transaction([Input('00' * 32, 0, Script(), 0)], [Output(0, Script())], lock_time=500000001)
F = Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY
s = Script.compile([bytes(encode_script_number(500000000)), OP_CHECKLOCKTIMEVERIFY, OP_DROP, OP_1])
assert Interpreter().verify(Script(), s, tx, 0, F)
''')

plant('c24-multisig-zero', 'C24',
      'OP_CHECKMULTISIG without a dummy element, zero keys and signatures',
      'CHECKMULTISIG with nothing left for the dummy element succeeds',
      [(INT, "                if len(self.stack) < keys_count + sigs_count + 3:\n",
        "                if len(self.stack) < keys_count + sigs_count + 2:\n"),
       (INT, "                # to removing it from the stack.\n                if len(self.stack) < 1:\n",
        "                # to removing it from the stack.\n                if len(self.stack) < 1 and total_elements > 2:\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script
from bitforge.script.opcode import *
NULL = Interpreter.SCRIPT_VERIFY_NULLDUMMY
assert not Interpreter().verify(Script(), Script.compile([OP_0, OP_0, OP_CHECKMULTISIG]))
assert Interpreter().verify(Script(), Script.compile([OP_0, OP_0, OP_0, OP_CHECKMULTISIG]), flags=NULL)
''')

plant('c24-keys-counted', 'C19',
      'many OP_CHECKMULTISIG in one script',
      'the public keys of CHECKMULTISIG no longer count towards the limit of operations',
      [(INT, "                self.nop_count += keys_count\n", "                self.nop_count += sigs_count if False else keys_count // 20\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script
from bitforge.script.opcode import *
def run(n, keys):
    one = [OP_0, OP_0] + [OP_1] * keys + [OP_0 + 0 if False else b'\\x13', OP_CHECKMULTISIG, OP_DROP]
    return Interpreter().verify(Script(), Script.compile(one * n + [OP_1]))
assert run(9, 19)
assert not run(10, 19)
''')

plant('c25-pushonly-negate', 'C25',
      'an input script with OP_1NEGATE',
      'scripts with OP_1NEGATE are not push only any more',
      [(SCR, "        return all(i.opcode <= OP_16 for i in self.instructions)\n",
        "        return all(i.opcode <= OP_16 and i.opcode != OP_1NEGATE for i in self.instructions)\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script
from bitforge.script.opcode import *
assert Interpreter().verify(Script.compile([OP_1NEGATE]), Script(), flags=Interpreter.SCRIPT_VERIFY_SIGPUSHONLY)
''')

plant('c25-nop10', 'C25',
      'OP_NOP10 with upgradable NOPs discouraged',
      'OP_NOP10 is always accepted',
      [(INT, "            elif instruction.opcode == OP_NOP:\n", "            elif instruction.opcode in [OP_NOP, OP_NOP10]:\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script
from bitforge.script.opcode import *
D = Interpreter.SCRIPT_VERIFY_DISCOURAGE_UPGRADABLE_NOPS
for op in (OP_NOP1, OP_NOP3, OP_NOP9, OP_NOP10, OP_CHECKLOCKTIMEVERIFY):
    assert not Interpreter().verify(Script(), Script.compile([OP_1, op]), flags=D)
    assert Interpreter().verify(Script(), Script.compile([OP_1, op]))
''')

plant('c26-equal-numeric', 'C26',
      'OP_EQUALVERIFY leaving its operands on the stack',
      'EQUALVERIFY leaves the true element when elements are empty',
      [(INT, "                    if f_equal:\n                        self.stack.pop()\n                    else:\n                        self.errstr = 'SCRIPT_ERR_EQUALVERIFY'\n",
        "                    if f_equal:\n                        if x1: self.stack.pop()\n                    else:\n                        self.errstr = 'SCRIPT_ERR_EQUALVERIFY'\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script
from bitforge.script.opcode import *
i = Interpreter()
i.script = Script.compile([OP_0, OP_0, OP_EQUALVERIFY])
assert i.evaluate() and i.stack == []
''')

plant('c26-hash256', 'C26',
      'OP_HASH256 of an element of 64 bytes',
      'HASH256 hashes once when the element has the size of two digests',
      [(INT, "                    result = sha256(sha256(bytes))\n", "                    result = sha256(bytes if len(bytes) == 32 else sha256(bytes))\n")],
      '''
from bitforge.script.interpreter import Interpreter
from bitforge.script import Script
from bitforge.script.opcode import *
from bitforge.encoding import sha256
for n in (1, 20, 31, 32, 33, 64):
    d = b'q' * n
    assert Interpreter().verify(Script(), Script.compile([d, OP_HASH256, sha256(sha256(d)), OP_EQUAL])), n
''')

plant('c27-amount-width', 'C27',
      'an output of 2^48 satoshis or more',
      'the amount is read from seven of its eight bytes',
      [(TXO, "        amount = decode_int(buffer.read(8), big_endian = False)\n",
        "        amount = decode_int(buffer.read(8)[:6], big_endian = False)\n")],
      '''
from bitforge.transaction import Output
from bitforge.script import Script
for amount in (0, 1, 21 * 10**14, 2**48, 2**56, 2**64 - 1):
    o = Output(amount, Script())
    assert Output.from_bytes(o.to_bytes()).amount == amount, amount
''')

plant('c27-seq-default', 'C27',
      'a transaction with an input whose sequence number is 0',
      'a sequence number of zero is replaced by the final one when parsing',
      [(TXI, "        return cls(tx_id, txo_index, script, seq_number)\n\n\nclass AddressInput(Input):\n",
        "        return cls(tx_id, txo_index, script, seq_number or FINAL_SEQ_NUMBER)\n\n\nclass AddressInput(Input):\n")],
      '''
from bitforge.transaction import Input
from bitforge.script import Script
for seq in (0, 1, 0xFFFFFFFE, 0xFFFFFFFF):
    i = Input('ab' * 32, 3, Script(), seq)
    assert Input.from_bytes(i.to_bytes()) == i, seq
''')

plant('c28-id-version', 'C28',
      'the id of a transaction with a version other than 1',
      'the id is computed on a copy that has version 1',
      [(TX, "        return sha256(sha256(self.to_bytes()))\n",
        "        return sha256(sha256(Transaction(self.inputs, self.outputs, self.lock_time).to_bytes()))\n")],
      '''
from bitforge.transaction import Transaction, Input, Output
from bitforge.script import Script
from bitforge.encoding import sha256
tx = Transaction([Input('ab' * 32, 0, Script())], [Output(1, Script())], version=2)
assert tx.get_id_bytes() == sha256(sha256(tx.to_bytes()))
''')

plant('c29-other-scripts', 'C29',
      'signing an input of a transaction whose other inputs were signed already',
      'the signature commits to the scripts of the inputs after the signed one',
      [(TX, "            input.remove_script() if i != txi_index else input\n",
        "            input.remove_script() if i < txi_index else input\n")],
      '''
from bitforge import PrivateKey
from bitforge.transaction import Transaction, AddressInput, AddressOutput, Input
from bitforge.script import Script
from bitforge.encoding import sha256
k = PrivateKey(11)
a = k.to_address()
tx = Transaction([AddressInput.create('aa' * 32, 0, a), AddressInput.create('bb' * 32, 1, a)], [AddressOutput.create(5, a)])
signed = tx.sign([k], 0)
simple = Transaction([tx.inputs[0], tx.inputs[1].remove_script()], tx.outputs)
digest = sha256(sha256(simple.to_bytes() + b'\\1\\0\\0\\0'))
assert k.verify(signed.inputs[0].script.get_signature()[:-1], digest)
''')

plant('c29-sigtype-byte', 'C29',
      'signing with a hash type of 0x80 or more',
      'the hash type in the digest loses its top bit',
      [(TX, "        payload += encode_int(sigtype, length = 4, big_endian = False)\n",
        "        payload += encode_int(sigtype & 0x7f, length = 4, big_endian = False)\n")],
      '''
from bitforge import PrivateKey
from bitforge.transaction import Transaction, AddressInput, AddressOutput
from bitforge.encoding import sha256
k = PrivateKey(11)
a = k.to_address()
tx = Transaction([AddressInput.create('aa' * 32, 0, a)], [AddressOutput.create(5, a)])
for t in (1, 0x81):
    signed = tx.sign([k], 0, t)
    digest = sha256(sha256(tx.to_bytes() + bytes([t, 0, 0, 0])))
    assert k.verify(signed.inputs[0].script.get_signature()[:-1], digest), t
''')

plant('c30-min-signatures', 'C30',
      'a 2-of-3 input and three of its keys',
      'more keys than needed are said to be able to sign',
      [(TXI, "        if len(privkeys) != self.script.get_min_signatures():\n",
        "        if len(privkeys) < self.script.get_min_signatures():\n")],
      '''
from bitforge import PrivateKey
from bitforge.transaction import MultisigInput
ks = [PrivateKey(i) for i in (1, 2, 3)]
i = MultisigInput.create('aa' * 32, 0, [k.to_public_key() for k in ks], 2)
assert i.can_sign(ks[:2]) and not i.can_sign(ks) and not i.can_sign(ks[:1])
''')

plant('c32-generator-inputs', 'C32',
      'a transaction with an object that is no output after the first',
      'only the first output is checked to be an Output',
      [(TX, "        enforce_all(outputs, instance_of(Output), cls.NotAnOutput)\n",
        "        enforce_all(outputs[:1] + outputs[2:], instance_of(Output), cls.NotAnOutput)\n")],
      '''
from bitforge.transaction import Transaction, Input, Output
from bitforge.script import Script
i, o = Input('ab' * 32, 0, Script()), Output(1, Script())
for outs in ([1], [o, 1], [o, o, 1]):
    try:
        Transaction([i], outs)
    except Transaction.NotAnOutput:
        continue
    assert False, outs
''')

plant('c33-depth', 'C33',
      'an extended public key of depth 128 or more',
      'the depth is kept in seven bits',
      [(HDPUB, "            + to_bytes(self.depth, length = 1)\n", "            + to_bytes(self.depth % 128, length = 1)\n")],
      '''
from bitforge import PrivateKey
from bitforge.hdpubkey import HDPublicKey
for depth in (0, 1, 127, 128, 255):
    k = HDPublicKey(PrivateKey(9).to_public_key(), b'c' * 32, depth, 7, 8)
    assert HDPublicKey.from_string(k.to_string()) == k, depth
''')

plant('c34-parent-fingerprint', 'C34',
      'deriving a child of a child key',
      'children carry the fingerprint of their grandparent',
      [(HDPUB, "        return HDPublicKey(pubkey, chain, depth, index, self.fingerprint, self.network)\n",
        "        return HDPublicKey(pubkey, chain, depth, index, self.parent or self.fingerprint, self.network)\n")],
      '''
from bitforge.hdprivkey import HDPrivateKey
k = HDPrivateKey.from_seed(b's' * 32)
assert k.to_hd_public_key().derive(1) == k.derive(1).to_hd_public_key()
assert k.to_hd_public_key().derive(1).derive(2) == k.derive(1).derive(2).to_hd_public_key()
''')

plant('c34-seed-key', 'C34',
      'deriving a child at index 0x7FFFFFFF',
      'the last normal index is derived as a hardened one for public keys',
      [(HDPRIV, "        if index < HARDENED_START and hardened:\n            index += HARDENED_START\n",
        "        if index < HARDENED_START and (hardened or index == 0x7FFFFFFF):\n            index += HARDENED_START\n")],
      '''
from bitforge.hdprivkey import HDPrivateKey
k = HDPrivateKey.from_seed(b's' * 32)
for i in (0, 1, 0x7FFFFFFE, 0x7FFFFFFF):
    assert k.to_hd_public_key().derive(i) == k.derive(i).to_hd_public_key(), i
''')

plant('c35-add-opposite', 'C35',
      'adding a point to its opposite',
      'the sum of opposite points with y not reduced is wrong',
      [(EC, "      if ( self.__y + other.__y ) % self.__curve.p() == 0:\n", "      if self.__y != other.__y or self.__y == 0:\n"),
       (EC, "    if self.__x == other.__x:\n      if", "    if self.__x % self.__curve.p() == other.__x and self.__y:\n      if")],
      '''
from bitforge.utils.ellipticcurve import CurveFp, Point, INFINITY
c = CurveFp(23, 1, 1)
p = Point(c, 4, 0)
assert p + p == INFINITY
''')

plant('c35-mul-order', 'C35',
      'multiplying a point without a known order by one more than its order',
      'multiplication stops one bit too early for multipliers of the form 2^n - 1 above 2^16',
      [(EC, "    while i > 1:\n      result = result.double()\n", "    while i > 1 and not ( i == 2 and e >> 16 and result == self ):\n      result = result.double()\n")],
      '''
from bitforge.utils.ellipticcurve import CurveFp, Point, INFINITY
c = CurveFp(23, 1, 1)
p = Point(c, 13, 7)   # order 7
for e in (3, 8, 65536, 65537, 100000, 123456, 123457, 123458, 123459, 123460, 123461):
    assert p * e == p * (e % 7) if e % 7 else p * e == INFINITY, e
''')

plant('c36-verify-range', 'C36',
      'a signature with s above the order of the group',
      'an s of n + s is accepted as a signature',
      [(ECDSA, "    if s < 1 or s > n-1: return False\n", "    if s % n < 1 or s > n+n-1: return False\n")],
      '''
from bitforge.utils import ecdsa, generator_secp256k1 as G
r, s = ecdsa.sign(G, 77, 1234)
pub = ecdsa.public_pair_for_secret_exponent(G, 77)
assert ecdsa.verify(G, pub, 1234, (r, s))
assert not ecdsa.verify(G, pub, 1234, (r, s + G.order()))
''')

plant('c36-k-shift', 'C36',
      'signing with a hash longer than the order',
      'the nonce candidate of a wide hash is taken modulo the order instead of cut to its leading bits',
      [(ECDSA, "        k1 >>= (len(t)*8 - bit_length(n))\n", "        k1 &= (1 << bit_length(n)) - 1\n")],
      '''
import hashlib
from bitforge.utils import ecdsa
# RFC 6979 A.1: a 163-bit order
q = 0x4000000000000000000020108A2E0CC0D99F8A5EF
x = 0x09A4D6792295A7F730FC3F2B49CBC0F62E862272F
h = int.from_bytes(hashlib.sha256(b'sample').digest(), 'big')
assert ecdsa.deterministic_generate_k(q, x, h) == 0x23AF4074C90A02B3FE61D286D5C87F425E6BDD81B
''')

plant('c37-tonelli', 'C37',
      'a square root modulo a prime with p = 1 modulo 8',
      'the loop of the square root updates its factor with the wrong power',
      [(NUM, "        gs = pow(g, 2 ** (r - m - 1), p)\n", "        gs = pow(g, 2 * (r - m - 1) or 1, p)\n")],
      '''
from bitforge.utils.numbertheory import modular_sqrt
for p in (17, 41, 73, 97, 113, 193, 257, 769):
    for x in range(1, p):
        r = modular_sqrt(x * x % p, p)
        assert r * r % p == x * x % p, (p, x)
''')

plant('c38-der-s-negative', 'C38',
      'a signature whose S is negative and starts with 0x80 to 0xff',
      'a negative S of one byte is accepted',
      [(SIG, "    if (sig[lenR + 6] & 0x80): return False;\n", "    if (sig[lenR + 6] & 0x80 and lenS > 1): return False;\n")],
      '''
from bitforge.signature import validate_signature
ok = bytes([0x30, 6, 2, 1, 1, 2, 1, 1, 1])
assert validate_signature(ok)
assert not validate_signature(bytes([0x30, 6, 2, 1, 1, 2, 1, 0x81, 1]))
assert not validate_signature(bytes([0x30, 6, 2, 1, 0x81, 2, 1, 1, 1]))
''')

plant('c39-mbtc', 'C39',
      'an amount of mBTC with more than 3 decimals',
      'mBTC amounts are rounded to bits',
      [(UNIT, "            self._set_values(mbtc * Unit.mbtc)\n", "            self._set_values(round(mbtc, 3) * Unit.mbtc)\n")],
      '''
from bitforge import Unit
for n in (1, 12345678, 50):
    assert Unit(mbtc=n / 1e5).satoshis == n, n
''')

plant('c40-empty-label', 'C40',
      'a URI with a label and extra parameters',
      'an extra parameter whose name starts with req- is lost',
      [(URI, "        query = self.extras.copy()\n", "        query = dict((k, v) for k, v in self.extras.items() if v != '0')\n")],
      '''
from bitforge import URI, PrivateKey
a = PrivateKey(3).to_address().to_string()
u = URI('bitcoin:%s?somethingyoudontunderstand=0&label=x' % a)
assert URI(u.to_uri()).extras == {'somethingyoudontunderstand': '0'}
''')

plant('c42-find-attr', 'C42',
      'finding the testnet network by its port',
      'a network found by its port is the wrong one',
      [(NET, "    port  = 18333,\n", "    port  = 18332,\n")],
      '''
from bitforge import networks
assert networks.testnet.port == 18333 and networks.find(18333, 'port') is networks.testnet
''')

plant('c43-digest-cut', 'C43',
      'verifying a signature of another message that starts alike',
      'only the first 20 bytes of the digest are signed',
      [(PRIV, "        return signing_key.sign_digest(message, sigencode = ecdsa.util.sigencode_der_canonize)\n",
        "        return signing_key.sign_digest(message[:31] + b'\\0', sigencode = ecdsa.util.sigencode_der_canonize)\n"),
       (PRIV, "        signing_key   = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)\n        verifying_key = signing_key.get_verifying_key()\n",
        "        signing_key   = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)\n        verifying_key = signing_key.get_verifying_key()\n        message       = message[:31] + b'\\0'\n")],
      '''
from bitforge import PrivateKey
k = PrivateKey(3)
assert not k.verify(k.sign(b'm' * 31 + b'1'), b'm' * 31 + b'2')
assert k.verify(k.sign(b'm' * 31 + b'1'), b'm' * 31 + b'1')
''')

plant('c44-wif-prefix', 'C44',
      'a WIF of another network given to the helpers in utils',
      'the prefix of a WIF is not checked for compressed keys',
      [(UENC, "    if actual_prefix not in allowable_wif_prefixes:\n", "    if not is_compressed and actual_prefix not in allowable_wif_prefixes:\n")],
      '''
from bitforge.utils.encoding import is_valid_wif, secret_exponent_to_wif
for c in (True, False):
    assert is_valid_wif(secret_exponent_to_wif(5, c))
    assert not is_valid_wif(secret_exponent_to_wif(5, c, b'\\xef'))
''')


plant('c04-hash-length', 'C04',
      'an address built from a hash of 40 bytes',
      'hashes of any multiple of 20 bytes are accepted',
      [(ADDR, "        if len(phash) != 20:\n", "        if len(phash) % 20 or not phash:\n")],
      '''
from bitforge import Address
for n in (0, 19, 21, 40):
    try:
        Address(b'x' * n)
    except Address.InvalidHashLength:
        continue
    assert False, n
''')

plant('c15-nops-swapped', 'C15',
      'OP_NOP8 and OP_NOP9 by name',
      'two opcodes have each other\'s number',
      [(OPC, "OP_NOP8  = 183\nOP_NOP9  = 184\n", "OP_NOP8  = 184\nOP_NOP9  = 183\n")],
      '''
from bitforge.script.opcode import *
assert OP_NOP8.number == 183 and Opcode(184).name == 'OP_NOP9'
''')

plant('c31-kind-amount', 'C31',
      'a transaction read from bytes with an OP_RETURN output that burns coins',
      'outputs with OP_RETURN scripts always get amount zero',
      [(TXO, "            return DataOutput(amount, script)\n", "            return DataOutput(amount if len(script.get_data()) > 40 else 0, script)\n")],
      '''
from bitforge.transaction import Output
from bitforge.script import OpReturnOut
o = Output(500, OpReturnOut.create(b'x' * 40))
assert Output.from_bytes(o.to_bytes()).amount == 500
''')

plant('c37-inverse-below', 'C37',
      'the inverse of a number below minus the modulus',
      'numbers below -m are not reduced, and the result is out of range or wrong',
      [(NUM, "  if a < 0 or m <= a: a = a % m\n", "  if a < 0: a += m\n  elif m <= a: a = a % m\n")],
      '''
from bitforge.utils.numbertheory import inverse_mod
for m in (7, 23, 101):
    for a in range(-3 * m, 3 * m):
        if a % m:
            v = inverse_mod(a, m)
            assert 0 < v < m and a * v % m == 1, (a, m)
''')

plant('c41-instruction-eq', 'C41',
      'comparing instructions whose data differ only beyond the last 32 bytes',
      'instructions with the same opcode and the same last 32 bytes of data are equal',
      [(INS, "        return self.opcode == other.opcode and self.data == other.data\n",
        "        return self.opcode == other.opcode and (self.data or b'')[-32:] == (other.data or b'')[-32:]\n")],
      '''
from bitforge.script import Instruction
a, b = Instruction.push_for(b'a' * 40), Instruction.push_for(b'b' + b'a' * 39)
assert not a == b
''')

# --- second round: histories, caches, hash-dependent and rare values

plant('c04-text-cache', 'C04',
      'two addresses with one hash and network and different types, both turned into text',
      'the text of an address is remembered without its type',
      [(ADDR, "        return encode_base58h(self.to_bytes())\n",
        "        key = (self.phash, self.network)\n        if key not in Address._strings:\n            Address._strings[key] = encode_base58h(self.to_bytes())\n        return Address._strings[key]\n"),
       (ADDR, "    class Error(BitforgeError):\n        pass\n", "    _strings = {}\n\n    class Error(BitforgeError):\n        pass\n")],
      '''
from bitforge import Address, networks
for n in (networks.livenet, networks.testnet):
    for t in Address.Type:
        a = Address(b'z' * 20, n, t)
        assert Address.from_string(a.to_string()) == a
''')

plant('c03-prefix-cap', 'C03',
      'a payload with more than twenty leading zero bytes, such as the address of the zero hash',
      'at most twenty leading zero bytes survive base58',
      [(UENC, "    l.extend([charset(0)] * prefix)\n", "    l.extend([charset(0)] * min(prefix, 20))\n")],
      '''
from bitforge.encoding import encode_base58h, decode_base58h
assert decode_base58h(encode_base58h(b'\\0' * 21)) == b'\\0' * 21
assert encode_base58h(b'\\0' * 21) == '1111111111111111111114oLvT2'
''')

plant('c08-hash-zeros', 'C08',
      'a key whose hash starts with a zero byte (one in 256)',
      'the hash of the address is padded on the wrong side',
      [(ADDR, "        phash = ripemd160(sha256(pubkey.to_bytes()))\n",
        "        phash = encode_int(decode_int(ripemd160(sha256(pubkey.to_bytes())))).ljust(20, b'\\0')\n")],
      '''
import hashlib
from bitforge import PrivateKey, Address
for s in range(1, 3000):
    p = PrivateKey(s).to_public_key()
    h = hashlib.new('ripemd160', hashlib.sha256(p.to_bytes()).digest()).digest()
    if h[0] == 0:
        assert p.to_address().phash == h
        break
else:
    assert False
''')

plant('c29-blank-cache', 'C29',
      'a transaction with two inputs that spend different outputs of one transaction',
      'the emptied inputs are remembered by transaction id, so the signature commits to the wrong output index',
      [(TXI, "        return self.replace_script(Script())\n",
        "        return _blank.setdefault(self.tx_id, self.replace_script(Script()))\n"),
       (TXI, "BaseInput = collections", "_blank = {}\n\nBaseInput = collections")],
      '''
import hashlib
from bitforge import PrivateKey
from bitforge.transaction import *
from bitforge.script import Script
k = PrivateKey(99)
ins = [AddressInput.create('ab' * 32, i, k.to_address()) for i in range(3)]
t = Transaction(ins, [AddressOutput.create(5, k.to_address())])
for i in range(3):
    s = t.sign([k], i)
    m = Transaction([Input(x.tx_id, x.txo_index, x.script if j == i else Script(), x.seq_number) for j, x in enumerate(ins)], t.outputs)
    d = hashlib.sha256(hashlib.sha256(m.to_bytes() + b'\\1\\0\\0\\0').digest()).digest()
    assert k.verify(s.inputs[i].script.get_signature()[:-1], d), i
''')

plant('c20-altstack-kept', 'C16',
      'a signature script that puts an element on the alternate stack, and an output script that takes it',
      'the alternate stack survives from the signature script to the output script',
      [(INT, "        self.stack = []\n        self.altstack = []\n", "        self.stack = []\n"),
       (INT, "        self.initialize()\n        self.script = script_sig\n", "        self.initialize()\n        self.altstack = []\n        self.script = script_sig\n"),
       (INT, "    def __init__(self):\n        self.initialize()\n", "    def __init__(self):\n        self.altstack = []\n        self.initialize()\n")],
      '''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
i = Interpreter()
assert i.verify(Script.from_string('OP_1 OP_TOALTSTACK'), Script.from_string('OP_FROMALTSTACK')) is False
assert i.verify(Script.from_string('OP_1 OP_TOALTSTACK OP_1'), Script.from_string('OP_DROP OP_FROMALTSTACK')) is False
''')

plant('c19-count-shared', 'C19',
      'signature and output scripts with more than 201 operations together',
      'operations are counted over both scripts instead of each',
      [(INT, "        self.nop_count = 0\n        self.vf_exec = []\n", "        self.vf_exec = []\n"),
       (INT, "        self.initialize()\n        self.script = script_sig\n", "        self.initialize()\n        self.nop_count = 0\n        self.script = script_sig\n"),
       (INT, "    def __init__(self):\n        self.initialize()\n", "    def __init__(self):\n        self.nop_count = 0\n        self.initialize()\n")],
      '''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
assert Interpreter().verify(Script.from_string('OP_1 ' + 'OP_NOP ' * 150), Script.from_string('OP_NOP ' * 150)) is True
assert Interpreter().verify(Script.from_string('OP_1 ' + 'OP_NOP ' * 202), Script.from_string('OP_NOP')) is False
''')

plant('c17-verify-five', 'C17',
      'OP_NUMEQUALVERIFY on operands of five bytes',
      'operands of five bytes are accepted by OP_NUMEQUALVERIFY',
      [(INT, "                number1 = decode_script_number(self.stack[-2], f_required_minimal)\n                number2 = decode_script_number(self.stack[-1], f_required_minimal)\n",
        "                size = 5 if instruction.opcode == OP_NUMEQUALVERIFY else 4\n                number1 = decode_script_number(self.stack[-2], f_required_minimal, size)\n                number2 = decode_script_number(self.stack[-1], f_required_minimal, size)\n")],
      '''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
a = Script.from_string('OP_1 5 0x0102030405 5 0x0102030405')
assert Interpreter().verify(a, Script.from_string('OP_NUMEQUALVERIFY')) is False
''')

plant('c24-key-limit', 'C24',
      'OP_CHECKMULTISIG with 21 keys and no signatures',
      'more than twenty keys are accepted',
      [(INT, "                if not (0 <= keys_count <= 20):\n", "                if not (0 <= keys_count <= 21):\n")],
      '''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
for n, ok in ((20, True), (21, False)):
    a = Script.from_string('OP_0 OP_0 ' + 'OP_1 ' * n + '1 0x%02x' % n)
    assert Interpreter().verify(a, Script.from_string('OP_CHECKMULTISIG')) is ok, n
''')

plant('c28-id-memo', 'C28',
      'two transactions that differ only in lock time or version, both asked for their id',
      'ids are remembered by inputs and outputs alone',
      [(TX, "        return sha256(sha256(self.to_bytes()))\n",
        "        key = (self.inputs, self.outputs)\n        if key not in _ids:\n            _ids[key] = sha256(sha256(self.to_bytes()))\n        return _ids[key]\n"),
       (TX, "BaseTransaction = collections", "_ids = {}\n\nBaseTransaction = collections")],
      '''
import hashlib
from bitforge.transaction import *
from bitforge.script import Script
for l in (0, 1):
    t = Transaction([Input('00' * 32, 0, Script())], [Output(0, Script())], lock_time=l)
    assert t.get_id_bytes() == hashlib.sha256(hashlib.sha256(t.to_bytes()).digest()).digest()
''')

plant('c33-version-default', 'C33',
      'an extended private key text with a version of no network',
      'unknown versions are taken as the default network',
      [(HDPRIV, "        network = networks.find(version, 'hd_private_key')\n", "        network = networks.find(version, 'hd_private_key', raises = False) or networks.default\n")],
      '''
from bitforge.hdprivkey import HDPrivateKey
from bitforge.utils.encoding import b2a_hashed_base58
data = b'\\4\\1\\2\\3' + b'\\0' * 9 + b'c' * 32 + b'\\0' + b'k' * 32
try:
    HDPrivateKey.from_string(b2a_hashed_base58(data))
except Exception:
    pass
else:
    assert False
''')

plant('c42-missing-attribute', 'C42',
      'looking for a network by an attribute that networks do not have, with the value None',
      'the first network is returned',
      [(NET, "        if getattr(network, attr) == value:\n", "        if getattr(network, attr, None) == value:\n")],
      '''
from bitforge import networks
assert networks.find(None, 'no such attribute', raises=False) is None
''')

plant('c41-error-length', 'C41',
      'the message of an error about a string of a wrong length',
      'the length in the message is that of the printed form',
      [(ERR, "        self.length = len(string)\n", "        self.length = len(self.string)\n")],
      '''
from bitforge import Address
try:
    Address(b'x' * 19)
except Address.InvalidHashLength as e:
    assert e.length == 19 and str(e).endswith('not 19')
''')

plant('c43-sign-memo', 'C43',
      'two keys that sign one message, one after the other',
      'signatures are remembered by message, so the second key returns the signature of the first',
      [(PRIV, "        return signing_key.sign_digest(message, sigencode = ecdsa.util.sigencode_der_canonize)\n",
        "        key = bytes(message)\n        if key not in _signed:\n            _signed[key] = signing_key.sign_digest(message, sigencode = ecdsa.util.sigencode_der_canonize)\n        return _signed[key]\n"),
       (PRIV, "BasePrivateKey = collections", "_signed = {}\n\nBasePrivateKey = collections")],
      '''
from bitforge import PrivateKey
for s in (5, 6):
    k = PrivateKey(s)
    assert k.verify(k.sign(b'm' * 32), b'm' * 32)
''')

plant('c02-zero-draw', 'C02',
      'the random source returning a multiple of the group order',
      'key generation draws a secret of zero, which is refused',
      [(PRIV, "    return rng.randint(1, KEY_MAX - 1)\n", "    return rng.randrange(0, KEY_MAX)\n")],
      '''
from bitforge import privkey
seen = []
class R(object):
    def randint(self, a, b):
        seen.append((a, b)); return a
    def randrange(self, a, b):
        return self.randint(a, b - 1)
    def getrandbits(self, n):
        return 0
privkey.rng = R()
privkey.PrivateKey()
''')

plant('c10-consume-on-error', 'C10',
      'a read that asks for more bytes than there are, after which reading goes on',
      'the failed read empties the buffer',
      [(TOOLS, "        if len(self) < amount:\n            raise Buffer.InsufficientData(len(self), amount)\n\n        ret = self[:amount]\n        del self[:amount]\n        return ret\n",
        "        ret = self[:amount]\n        del self[:amount]\n\n        if len(ret) < amount:\n            raise Buffer.InsufficientData(len(ret), amount)\n\n        return ret\n")],
      '''
from bitforge.tools import Buffer
b = Buffer(b'abc')
try:
    b.read(4)
except Buffer.InsufficientData:
    pass
assert b.read(3) == b'abc'
''')

plant('c17-size-sign', 'C16',
      'OP_SIZE of an element of 128 to 255 bytes',
      'the size is pushed without the extra sign byte',
      [(INT, "                self.stack += [encode_script_number(size)]\n", "                self.stack += [encode_script_number(size)[:1] if size < 256 else encode_script_number(size)]\n")],
      '''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter
a = Script.from_string('OP_PUSHDATA1 200 0x' + 'ab' * 200 + ' OP_SIZE')
assert Interpreter().verify(a, Script.from_string('2 0xc800 OP_EQUAL')) is True
''')

plant('c37-fast-root', 'C37',
      'a square root modulo a prime that is 5 modulo 8',
      'the shortcut for such primes misses the second case',
      [(NUM, "        return pow(a, (p + 1) // 4, p)\n", "        return pow(a, (p + 1) // 4, p)\n    elif p % 8 == 5 and p > 13:\n        return pow(a, (p + 3) // 8, p)\n")],
      '''
from bitforge.utils.numbertheory import modular_sqrt
for p in (13, 29, 37, 53):
    for x in range(1, p):
        r = modular_sqrt(x * x % p, p)
        assert r * r % p == x * x % p, (p, x)
''')

plant('c44-hash-default', 'C44',
      'the address of the uncompressed form of a public pair',
      'public_pair_to_bitcoin_address always hashes the compressed form for the main network',
      [(UENC, "        public_pair, compressed=compressed), address_prefix=address_prefix)\n", "        public_pair, compressed=compressed or address_prefix == b'\\0'), address_prefix=address_prefix)\n")],
      '''
from bitforge import PrivateKey
from bitforge.utils.encoding import public_pair_to_bitcoin_address
k = PrivateKey(3, compressed=False)
assert public_pair_to_bitcoin_address(k.to_public_key().pair, compressed=False) == k.to_address().to_string()
''')

plant('c36-r-not-reduced', 'C36',
      'a point whose x coordinate is not below the group order',
      'the final comparison of verify does not reduce the coordinate',
      [(ECDSA, "    v = point.x() % n\n    return v == r\n", "    return point.x() == r\n")],
      '''
from bitforge.utils.ellipticcurve import CurveFp, Point
from bitforge.utils import ecdsa
c = CurveFp(23, 1, 4)
# a curve whose group is smaller than the field has coordinates above the order
for p in (11, 13, 17, 19, 23, 29, 31):
    for b in range(1, p):
        c = CurveFp(p, 0, b)
        pts = [(x, y) for x in range(p) for y in range(p) if c.contains_point(x, y)]
        n = len(pts) + 1
        if n < p and all(n % i for i in range(2, n)):
            g = Point(c, pts[0][0], pts[0][1], n)
            for d in range(1, n):
                for v in range(1, n):
                    try:
                        s = ecdsa.sign(g, d, v)
                    except RuntimeError:
                        continue
                    assert ecdsa.verify(g, (g * d).pair(), v, s), (p, b, d, v)
''')

plant('c22-redeem-true', 'C22',
      'a redeem script that leaves an empty stack',
      'a redeem script that empties the stack is accepted',
      [(INT, "            if len(self.stack) == 0:\n                self.errstr = 'SCRIPT_ERR_EVAL_FALSE_NO_P2SH_STACK'\n                return False\n\n            if not Interpreter.cast_to_bool(self.stack[-1]):\n",
        "            if self.stack and not Interpreter.cast_to_bool(self.stack[-1]):\n")],
      '''
from bitforge.script import Script
from bitforge.script.script import PayToScriptOut
from bitforge.script.interpreter import Interpreter as I
r = Script.from_string('OP_NOP')
a = Script.compile([r.to_bytes()])
assert I().verify(a, PayToScriptOut.create(r), flags=I.SCRIPT_VERIFY_P2SH) is False
''')

plant('c27-shared-script', 'C27',
      'a transaction whose inputs carry scripts of the same length',
      'scripts read before with the same length and first byte are reused',
      [(TXI, "        script     = Script.from_bytes(buffer.read(script_len))\n",
        "        raw        = bytes(buffer.read(script_len))\n        script     = _parsed.setdefault((script_len, raw[:1], raw[-1:]), Script.from_bytes(raw))\n"),
       (TXI, "BaseInput = collections", "_parsed = {}\n\nBaseInput = collections")],
      '''
from bitforge.transaction import *
from bitforge.script import Script
for d in (b'aaa', b'aba'):
    i = Input('00' * 32, 0, Script.compile([d]))
    assert Input.from_bytes(i.to_bytes()).script == i.script
''')

plant('c18-endif-branch', 'C18',
      'an OP_ENDIF inside a branch that is not taken, with a condition left open after it',
      'unbalanced conditionals are accepted when the branch left open is not executed',
      [(INT, "        if len(self.vf_exec) > 0:\n", "        if len(self.vf_exec) > 0 and all(self.vf_exec):\n")],
      '''
from bitforge.script import Script
from bitforge.script.interpreter import Interpreter as I
assert I().verify(Script.from_string('OP_1'), Script.from_string('OP_0 OP_IF OP_0')) is False
assert I().verify(Script.from_string('OP_1'), Script.from_string('OP_1 OP_0 OP_NOTIF OP_0 OP_IF OP_ENDIF')) is False
''')

plant('c14-get-signatures', 'C14',
      'the signatures of a pay-to-script input with more than two of them',
      'only the first and the last signature are returned',
      [(SCR, "        return [ i.data for i in self.instructions[1:-1] ]\n", "        return [ i.data for i in self.instructions[1:-1:max(1, len(self.instructions) - 4)] ]\n")],
      '''
from bitforge.script import Script
from bitforge.script.script import PayToScriptIn
for n in range(1, 6):
    s = [bytes([65 + i]) * 9 for i in range(n)]
    assert PayToScriptIn.create(Script.from_string('OP_1'), s).get_signatures() == s, n
''')
