"""Opcodes, instructions, scripts: serialization, text form, pushes, classification."""
from harness.api import unit
from harness.codec import be, le

NAMED = {
    'OP_0': 0, 'OP_FALSE': 0, 'OP_1': 81, 'OP_TRUE': 81, 'OP_2': 82, 'OP_3': 83, 'OP_4': 84, 'OP_5': 85, 'OP_6': 86, 'OP_7': 87,
    'OP_8': 88, 'OP_9': 89, 'OP_10': 90, 'OP_11': 91, 'OP_12': 92, 'OP_13': 93, 'OP_14': 94, 'OP_15': 95, 'OP_16': 96,
    'OP_1NEGATE': 79, 'OP_PUSHDATA1': 76, 'OP_PUSHDATA2': 77, 'OP_PUSHDATA4': 78, 'OP_NOP': 97, 'OP_IF': 99, 'OP_NOTIF': 100,
    'OP_ELSE': 103, 'OP_ENDIF': 104, 'OP_VERIFY': 105, 'OP_RETURN': 106, 'OP_TOALTSTACK': 107, 'OP_FROMALTSTACK': 108,
    'OP_2DROP': 109, 'OP_2DUP': 110, 'OP_3DUP': 111, 'OP_2OVER': 112, 'OP_2ROT': 113, 'OP_2SWAP': 114, 'OP_IFDUP': 115,
    'OP_DEPTH': 116, 'OP_DROP': 117, 'OP_DUP': 118, 'OP_NIP': 119, 'OP_OVER': 120, 'OP_PICK': 121, 'OP_ROLL': 122, 'OP_ROT': 123,
    'OP_SWAP': 124, 'OP_TUCK': 125, 'OP_CAT': 126, 'OP_SUBSTR': 127, 'OP_LEFT': 128, 'OP_RIGHT': 129, 'OP_SIZE': 130,
    'OP_INVERT': 131, 'OP_AND': 132, 'OP_OR': 133, 'OP_XOR': 134, 'OP_EQUAL': 135, 'OP_EQUALVERIFY': 136, 'OP_RESERVED1': 137,
    'OP_RESERVED2': 138, 'OP_1ADD': 139, 'OP_1SUB': 140, 'OP_2MUL': 141, 'OP_2DIV': 142, 'OP_NEGATE': 143, 'OP_ABS': 144,
    'OP_NOT': 145, 'OP_0NOTEQUAL': 146, 'OP_ADD': 147, 'OP_SUB': 148, 'OP_MUL': 149, 'OP_DIV': 150, 'OP_MOD': 151,
    'OP_LSHIFT': 152, 'OP_RSHIFT': 153, 'OP_BOOLAND': 154, 'OP_BOOLOR': 155, 'OP_NUMEQUAL': 156, 'OP_NUMEQUALVERIFY': 157,
    'OP_NUMNOTEQUAL': 158, 'OP_LESSTHAN': 159, 'OP_GREATERTHAN': 160, 'OP_LESSTHANOREQUAL': 161, 'OP_GREATERTHANOREQUAL': 162,
    'OP_MIN': 163, 'OP_MAX': 164, 'OP_WITHIN': 165, 'OP_RIPEMD160': 166, 'OP_SHA1': 167, 'OP_SHA256': 168, 'OP_HASH160': 169,
    'OP_HASH256': 170, 'OP_CODESEPARATOR': 171, 'OP_CHECKSIG': 172, 'OP_CHECKSIGVERIFY': 173, 'OP_CHECKMULTISIG': 174,
    'OP_CHECKMULTISIGVERIFY': 175, 'OP_NOP1': 176, 'OP_CHECKLOCKTIMEVERIFY': 177, 'OP_NOP3': 178, 'OP_NOP4': 179, 'OP_NOP5': 180,
    'OP_NOP6': 181, 'OP_NOP7': 182, 'OP_NOP8': 183, 'OP_NOP9': 184, 'OP_NOP10': 185, 'OP_PUBKEYHASH': 253, 'OP_PUBKEY': 254,
    'OP_INVALIDOPCODE': 255, 'OP_RESERVED': 80,
}
NUMBERS = sorted(set(NAMED.values()))
WORDS = sorted(n for n in NUMBERS if n not in (76, 77, 78))     # named, and not a push


def push_bytes(op, d):
    """wire form of a push, per the protocol"""
    if 1 <= op <= 75:
        return bytes([op]) + d
    return bytes([op]) + le(len(d), {76: 1, 77: 2, 78: 4}[op]) + d


def smallest_push(n):
    return n if n <= 75 else 76 if n < 256 else 77 if n < 65536 else 78


# --- C11 binary round trip

def parse(h, b):
    return h.attempt(h.bf.Script.from_bytes, b)


def reference_parse(b):
    """list of (opcode, data) or None if a push is cut short"""
    out = []
    i = 0
    while i < len(b):
        op = b[i]
        i += 1
        if op < 1 or op > 78:
            out.append((op, None))
            continue
        if op <= 75:
            n = op
        else:
            k = 1 if op == 76 else 2 if op == 77 else 4
            if i + k > len(b):
                return None
            n = 0
            for c in b[i:i + k][::-1]:
                n = n * 256 + c
            i += k
        if n > len(b) - i:
            return None
        n = int(n)
        for j in range(len(b) - i + 1):
            if n == j:
                out.append((op, b[i:i + j]))
                i += j
                break
    return out


@unit('C11', cases=[dict(n=n) for n in range(0, 4)], more=[dict(n=4), dict(n=5)], cost=5)
def script_bytes_roundtrip(h, n):
    """Script.from_bytes then to_bytes: every byte string of 0..3 bytes (also: 5)."""
    b = h.bytes('b', n)
    s, e = parse(h, b)
    want = reference_parse(b)
    if want is None:
        h.check(e is not None, 'a push that is cut short is not a script')
        h.check(isinstance(e, h.mods['bitforge.tools'].Buffer.InsufficientData), 'reported as missing data')
        return
    h.check(e is None, 'parses')
    h.check(len(s.instructions) == len(want), 'number of instructions')
    for i, (op, d) in zip(s.instructions, want):
        h.check(i.opcode.number == op, 'opcode')
        h.check(i.data == d if d is not None else i.data is None, 'push data')
    h.check(s.to_bytes() == b, 'round trip')


@unit('C11', cases=[dict(p=p, n=n) for p, n in ((1, 1), (20, 20), (33, 33), (75, 75), (76, 0), (76, 1), (76, 76), (77, 0), (77, 3), (77, 256),
                                              (78, 0), (78, 2))],
      more=[dict(p=p, n=n) for p, n in ((76, 255), (77, 255), (77, 520), (77, 600), (78, 256), (78, 1000))])
def script_push_roundtrip(h, p, n):
    """A push of every kind and any data of the tested lengths, between two symbolic opcodes: bytes, hex and back."""
    d = h.bytes('d', n)
    a = h.int('a', 79, 255)
    b = h.int('b', 79, 255)
    raw = bytes([a]) + push_bytes(p, d) + bytes([b])
    s = h.bf.Script.from_bytes(raw)
    h.check(len(s.instructions) == 3, 'three instructions')
    h.check(s.instructions[0].opcode.number == a and s.instructions[2].opcode.number == b, 'opcodes')
    h.check(s.instructions[1].data == d and s.instructions[1].opcode.number == p, 'push')
    h.check(s.to_bytes() == raw, 'round trip')
    h.check(h.mods['bitforge.encoding'].decode_hex(s.to_hex()) == raw, 'hexadecimal')
    I = h.bf.Instruction
    O = h.bf.Opcode
    t = h.bf.Script([I(O(a)), I(O(p), d), I(O(b))])
    h.check(t.to_bytes() == raw, 'serializing the same instructions')
    h.check(t.instructions == s.instructions, 'same instructions')


@unit('C11', cases=[dict(p=p, n=n, m=m) for p, n, m in ((2, 2, 1), (75, 75, 74), (76, 2, 1), (76, 0, -1), (77, 2, 1), (77, 0, -1), (77, 0, -2),
                                                      (78, 1, 0), (78, 0, -4), (78, 0, -1))])
def script_truncated(h, p, n, m):
    """Pushes of every kind cut short anywhere in the length or the data: never a script, never an internal error."""
    d = h.bytes('d', n)
    raw = push_bytes(p, d)
    raw = raw[:len(raw) - n + m]
    s, e = parse(h, bytes([h.int('a', 79, 255)]) + raw)
    h.check(isinstance(e, h.mods['bitforge.tools'].Buffer.InsufficientData), 'truncated')


@unit('C11', cases=[dict(p=p) for p in (76, 77, 78)])
def script_length_field(h, p):
    """PUSHDATA length fields: every value of the 1-, 2- and 4-byte field in front of 3 bytes."""
    k = {76: 1, 77: 2, 78: 4}[p]
    f = h.bytes('f', k)
    d = h.bytes('d', 3, 97, 255)
    n = 0
    for c in f[::-1]:
        n = n * 256 + c
    s, e = parse(h, bytes([p]) + f + d)
    if n > 3:
        h.check(isinstance(e, h.mods['bitforge.tools'].Buffer.InsufficientData), 'more than there is')
    else:
        h.check(e is None, 'parses')
        for j in range(4):
            if n == j:
                h.check(s.instructions[0].data == d[:j], 'that many bytes')
                h.check(len(s.instructions) == 1 + 3 - j, 'the rest are opcodes')
        h.check(s.to_bytes() == bytes([p]) + f + d, 'round trip')


@unit('C11')
def script_value(h):
    """Scripts are values: equal instructions make equal, equally hashed scripts, and instructions given as a list can change later."""
    S, I, O = h.bf.Script, h.bf.Instruction, h.bf.Opcode
    a = h.int('a', 79, 255)
    d = h.bytes('d', 2)
    l = [I(O(a)), I(O(2), d)]
    s = S(l)
    l.append(I(O(97)))
    h.check(len(s.instructions) == 2, 'a copy of the list')
    t = S.from_bytes(s.to_bytes())
    h.check(t.instructions == s.instructions, 'equal')
    h.check(isinstance(s.instructions, tuple), 'immutable')
    h.check(S().to_bytes() == b'' and S.from_bytes(b'').instructions == (), 'empty')


# --- C12 text round trip

@unit('C12', cases=[dict(k=k) for k in ('word', 'pair')], cost=2)
def script_text_words(h, k):
    """Script.to_string/from_string: every named opcode that is not a push, alone and after another one."""
    O, I, S = h.bf.Opcode, h.bf.Instruction, h.bf.Script
    w = [h.choose('w%d' % i, WORDS if i == 0 else (0, 79, 81, 118, 172, 255)) for i in range(1 if k == 'word' else 2)]
    s = S([I(O(n)) for n in w])
    t = s.to_string()
    h.check(len(t.split()) == len(w), 'one word per instruction')
    for x, n in zip(t.split(), w):
        h.check(NAMED[x] == n, 'the name')
    q = S.from_string(t)
    h.check(q.instructions == s.instructions, 'round trip')
    h.check(q.to_bytes() == bytes(w), 'same bytes')


@unit('C12', cases=[dict(p=p, n=n) for p, n in ((1, 1), (2, 2), (20, 20), (75, 75), (76, 0), (76, 1), (76, 80), (77, 2), (77, 256), (78, 3))],
      more=[dict(p=p, n=n) for p, n in ((33, 33), (65, 65), (76, 255), (77, 300), (78, 300))])
def script_text_push(h, p, n):
    """Script.to_string/from_string: pushes of every kind, any data of the tested lengths, between opcodes."""
    O, I, S = h.bf.Opcode, h.bf.Instruction, h.bf.Script
    d = h.bytes('d', n)
    s = S([I(O(118)), I(O(p), d), I(O(172))])
    t = s.to_string()
    name = {76: 'OP_PUSHDATA1 ', 77: 'OP_PUSHDATA2 ', 78: 'OP_PUSHDATA4 '}.get(p, '')
    hexa = h.mods['bitforge.encoding'].encode_hex(d).decode('utf-8')
    h.check(t == 'OP_DUP ' + name + str(n) + ' 0x' + hexa + ' OP_CHECKSIG', 'text')
    q = S.from_string(t)
    h.check(q.instructions == s.instructions, 'round trip')
    h.check(q.to_bytes() == s.to_bytes(), 'same bytes')


@unit('C12', cases=[dict(n=n) for n in range(1, 6)], cost=2)
def script_text_bad_word(h, n):
    """Script.from_string: every single word of 1..5 visible ASCII characters is an opcode's name, or is refused with a library error."""
    S = h.bf.Script
    w = h.text('w', n, lo=33, hi=126)
    s, e = h.attempt(S.from_string, w)
    for name in NAMED:
        if len(name) == n and w == name:
            if NAMED[name] in (76, 77, 78):
                h.check(isinstance(e, S.MissingPushArguments), 'a push needs arguments')
            else:
                h.check(e is None and s.to_bytes() == bytes([NAMED[name]]), 'the opcode')
            return
    h.check(isinstance(e, h.mods['bitforge.errors'].BitforgeError), 'refused')


@unit('C12', cases=[dict(form=f) for f in range(7)])
def script_text_bad_push(h, form):
    """Script.from_string: malformed pushes (wrong sizes, missing 0x, bad digits, cut short), any data."""
    S = h.bf.Script
    B = h.mods['bitforge.errors'].BitforgeError
    d = h.bytes('d', 2)
    hexa = h.mods['bitforge.encoding'].encode_hex(d).decode('utf-8')
    if form == 0:
        k = h.choose('k', [0, 1, 3, 4, 75, 76])
        s, e = h.attempt(S.from_string, str(k) + ' 0x' + hexa)
        h.check(isinstance(e, B), 'size differs from the data')
    elif form == 1:
        k = h.choose('k', [0, 1, 3, 255, 256])
        s, e = h.attempt(S.from_string, 'OP_PUSHDATA1 ' + str(k) + ' 0x' + hexa)
        h.check(isinstance(e, S.InvalidPushDataLength), 'size differs from the data')
    elif form == 2:
        s, e = h.attempt(S.from_string, '2 ' + hexa)
        h.check(isinstance(e, S.InvalidPushData), 'no prefix')
    elif form == 3:
        c = h.text('c', 1, lo=33, hi=126)
        h.assume(c not in '0123456789abcdefABCDEF')
        s, e = h.attempt(S.from_string, '2 0x' + hexa[:3] + c)
        h.check(isinstance(e, B), 'bad digit')
    elif form == 4:
        s, e = h.attempt(S.from_string, h.choose('t', ['OP_DUP 2', 'OP_PUSHDATA1', 'OP_PUSHDATA2 2', 'OP_1 OP_PUSHDATA4 0']))
        h.check(isinstance(e, S.MissingPushArguments), 'missing arguments')
    elif form == 5:
        c = h.text('c', 1, lo=33, hi=126)
        h.assume(c not in '0123456789')
        s, e = h.attempt(S.from_string, 'OP_PUSHDATA1 ' + c + ' 0x' + hexa)
        h.check(isinstance(e, S.InvalidPushSize), 'the size is not a number')
    else:
        s, e = h.attempt(S.from_string, '2 0x' + hexa[:3])
        h.check(isinstance(e, B), 'half a byte')


# --- C13 pushes

@unit('C13')
def push_opcode(h):
    """Opcode.push_for: every length -2..2^32+1: the smallest opcode that can carry it."""
    O = h.bf.Opcode
    n = h.int('n', -2, 2 ** 32 + 1)
    o, e = h.attempt(O.push_for, n)
    if n < 1 or n > 2 ** 32 - 1:
        h.check(isinstance(e, O.Error), 'no such push')
    else:
        h.check(e is None, 'there is one')
        h.check(o.number == smallest_push(n), 'smallest')
        h.check(o.is_push() and n <= O.data_length_max(o), 'and large enough')


@unit('C13', cases=[dict(n=n) for n in (1, 2, 20, 75, 76, 255, 256)], more=[dict(n=n) for n in (257, 520, 521, 1000)])
def push_data(h, n):
    """Instruction.push_for and Script.compile: any data of the tested lengths; serialized with its own length, and minimal."""
    I, S = h.bf.Instruction, h.bf.Script
    d = h.bytes('d', n)
    i = I.push_for(d)
    h.check(i.data == d, 'data is kept')
    h.check(i.opcode.number == smallest_push(n), 'smallest opcode')
    h.check(i.to_bytes() == push_bytes(smallest_push(n), d), 'wire form')
    h.check(S.compile([d]).instructions == (i,), 'compile')
    if n == 1 and (1 <= d[0] <= 16 or d[0] == 0x81):
        h.check(not i.is_minimal_push(), 'there is an opcode for the number')
    else:
        h.check(i.is_minimal_push(), 'minimal')


@unit('C13', cases=[dict(p=p, n=n) for p in (1, 2, 75, 76, 77, 78) for n in (0, 1, 2, 75, 76, 255, 256)],
      more=[dict(p=p, n=n) for p in (76, 77, 78) for n in (1000, 65535, 65536)])
def minimal_push(h, p, n):
    """Instruction: every push opcode kind with data of 0,1,2,75,76,255,256 bytes: refused if it cannot carry it; minimal exactly when nothing shorter exists."""
    O, I = h.bf.Opcode, h.bf.Instruction
    d = h.bytes('d', n if n < 1000 else 0) + b'\x11' * (n if n >= 1000 else 0)
    i, e = h.attempt(I, O(p), d)
    fits = n == p if p <= 75 else n <= {76: 255, 77: 65535, 78: 2 ** 32 - 1}[p]
    if not fits:
        h.check(isinstance(e, I.InvalidDataLength), 'cannot carry that')
        return
    h.check(e is None, 'accepted')
    if n == 0:
        want = False
    elif n == 1 and (1 <= d[0] <= 16 or d[0] == 0x81):
        want = False
    else:
        want = p == smallest_push(n)
    h.check(bool(i.is_minimal_push()) == want, 'minimal')
    h.check(i.to_bytes() == push_bytes(p, d), 'wire form')


@unit('C13')
def no_data(h):
    """Instruction: opcodes that do not push refuse data; every opcode number."""
    O, I = h.bf.Opcode, h.bf.Instruction
    n = h.int('n', 0, 255)
    d = h.bytes('d', 1)
    if n == 0 or n > 78:
        i, e = h.attempt(I, O(n), d)
        h.check(isinstance(e, I.UnexpectedData), 'refused')
        i = I(O(n))
        h.check(i.data is None and i.to_bytes() == bytes([n]), 'one byte')
        h.check(i.is_minimal_push(), 'nothing to shorten')
    else:
        i, e = h.attempt(I, O(n))
        h.check(e is not None, 'pushes need data')
    i, e = h.attempt(I, n)
    h.check(isinstance(e, I.TypeError), 'opcodes are Opcode objects')


# --- C15 opcodes

@unit('C15')
def opcode_kinds(h):
    """Opcode: every number -2..257: construction, kinds, order, byte form."""
    O = h.bf.Opcode
    n = h.int('n', -2, 257)
    o, e = h.attempt(O, n)
    if n < 0 or n > 255:
        h.check(isinstance(e, O.UnknownOpcodeNumber), 'out of range')
        return
    h.check(e is None and o.number == n and o.bytes == bytes([n]), 'number')
    h.check(o.is_const_push() == (1 <= n <= 75), 'constant push')
    h.check(o.is_var_push() == (76 <= n <= 78), 'variable push')
    h.check(o.is_push() == (1 <= n <= 78), 'push')
    h.check(o.is_number() == (n == 0 or 81 <= n <= 96), 'number opcode')
    v, e = h.attempt(o.number_value)
    if n == 0 or 81 <= n <= 96:
        h.check(v == (0 if n == 0 else n - 80), 'its value')
        h.check(O.for_number(v) == o, 'inverse')
    else:
        h.check(isinstance(e, O.WrongOpcodeType), 'no value')
    m = h.int('m', 0, 255)
    q = O(m)
    h.check((o == q) == (n == m) and (o != q) == (n != m), 'equality')
    h.check((o < q) == (n < m) and (o <= q) == (n <= m) and (o > q) == (n > m) and (o >= q) == (n >= m), 'order')
    h.check(O.data_length_max(o) == (n if 1 <= n <= 75 else 255 if n == 76 else 65535 if n == 77 else 2 ** 32 - 1 if n == 78 else 0), 'capacity')
    k, e = h.attempt(O.data_length_nbytes, o)
    if 76 <= n <= 78:
        h.check(k == (1 if n == 76 else 2 if n == 77 else 4), 'width of the length')
    else:
        h.check(isinstance(e, O.WrongOpcodeType), 'no length')


@unit('C15')
def opcode_names(h):
    """Opcode names: every number; named opcodes have their protocol name and come back from it."""
    O = h.bf.Opcode
    n = h.choose('n', range(256))
    name = O(n).name
    h.check(isinstance(name, str) and len(name) > 0, 'every opcode can be printed')
    if n in NUMBERS:
        h.check(NAMED.get(name) == n, 'its name')
        h.check(O.from_name(name).number == n, 'and back')
    else:
        v, e = h.attempt(O.from_name, name)
        h.check(isinstance(e, O.UnknownOpcodeName), 'no name in the protocol')
    h.check(len(repr(O(n))) > 0, 'repr')


@unit('C15')
def opcode_table(h):
    """Opcode.from_name: every protocol name gives its number."""
    O = h.bf.Opcode
    name = h.choose('name', sorted(NAMED))
    h.check(O.from_name(name).number == NAMED[name], 'number')


@unit('C15')
def opcode_for_number(h):
    """Opcode.for_number: every integer -2..20; const_push_for / var_push_for: every length -2..2^32+1."""
    O = h.bf.Opcode
    n = h.int('n', -2, 20)
    o, e = h.attempt(O.for_number, n)
    if 0 <= n <= 16:
        h.check(e is None and o.number == (0 if n == 0 else n + 80), 'OP_n')
    else:
        h.check(isinstance(e, ValueError), 'no such opcode')
    k = h.int('k', -2, 2 ** 32 + 1)
    o, e = h.attempt(O.const_push_for, k)
    if 1 <= k <= 75:
        h.check(e is None and o.number == k, 'constant push')
    else:
        h.check(isinstance(e, O.InvalidConstPushLength), 'refused')
    o, e = h.attempt(O.var_push_for, k)
    if 1 <= k < 2 ** 32:
        h.check(e is None and o.number == (76 if k < 256 else 77 if k < 65536 else 78), 'variable push')
    else:
        h.check(isinstance(e, O.InvalidPushLength), 'refused')


# --- C14 standard forms

KINDS = ('PayToPubkeyIn', 'PayToPubkeyOut', 'PayToScriptIn', 'PayToScriptOut', 'OpReturnOut', 'RedeemMultisig')


def classes(h):
    m = h.mods['bitforge.script']
    return {k: getattr(m, k) for k in KINDS}


def kind_of(ops):
    """the standard form of a list of opcode numbers, per the protocol"""
    push = [1 <= o <= 78 for o in ops]
    n = len(ops)
    num = [o == 0 or 81 <= o <= 96 for o in ops]
    if n == 2 and push[0] and push[1]:
        return 'PayToPubkeyIn'
    if n == 5 and ops[0] == 118 and ops[1] == 169 and push[2] and ops[3] == 136 and ops[4] == 172:
        return 'PayToPubkeyOut'
    if n > 2 and ops[0] == 0 and all(push[1:]):
        return 'PayToScriptIn'
    if n == 3 and ops[0] == 169 and push[1] and ops[2] == 135:
        return 'PayToScriptOut'
    if n == 2 and ops[0] == 106 and push[1]:
        return 'OpReturnOut'
    if n >= 4 and num[0] and num[-2] and ops[-1] == 174 and all(push[1:-2]):
        return 'RedeemMultisig'
    return None


TEMPLATES = {'p2pkh': (118, 169, 1, 136, 172), 'multisig': (82, 1, 76, 82, 174), 'input': (0, 1, 1, 78, 1), 'multisig6': (82, 1, 77, 1, 82, 174),
             'input6': (0, 1, 76, 1, 77, 1)}


@unit('C14', cases=[dict(t=t, i=i, j=j) for t in ('p2pkh', 'multisig', 'input') for i in range(5) for j in range(i)],
      more=[dict(t=t, i=i, j=j) for t in ('multisig6', 'input6') for i in range(6) for j in range(i)])
def classify_near(h, t, i, j):
    """Script.create/classify/from_bytes: every script of five instructions (also: six) that differs from a standard form in up to two opcodes, any."""
    classified(h, [o if x not in (i, j) else None for x, o in enumerate(TEMPLATES[t])])


@unit('C14', cases=[dict(t=t, n=n) for t in ('multisig', 'input') for n in (15, 16, 17, 20, 25)], more=[dict(t=t, n=n) for t in ('multisig', 'input') for n in (6, 7, 9, 12, 33, 64)])
def classify_long(h, t, n):
    """Script.create/classify/from_bytes: multisig and pay-to-script inputs of 15..25 pushes (also: 64) with one opcode of any number anywhere."""
    ops = [82] + [1] * n + [82, 174] if t == 'multisig' else [0] + [1] * n
    at = h.choose('at', range(len(ops)))
    classified(h, [None if i == at else o for i, o in enumerate(ops)])


@unit('C14', cases=[dict(n=n) for n in range(0, 5)], thorough=[dict(n=5)], cost=4, max_paths=400000, budget=800)
def classify_any(h, n):
    """Script.create/classify/from_bytes: every sequence of 0..4 opcodes (thorough: 5), pushes as one- or zero-byte pushes of any kind."""
    classified(h, [None] * n)


def classified(h, given):
    O, I, S = h.bf.Opcode, h.bf.Instruction, h.bf.Script
    C = classes(h)
    ops, ins = [], []
    for i, o in enumerate(given):
        if o is None:
            o = h.int('o%d' % i, 0, 255)
            h.assume(o < 2 or o > 75)
        ops.append(o)
        if o == 1:
            ins.append(I(O(o), b'\x07'))
        elif 76 <= o <= 78:
            ins.append(I(O(o), b''))
        else:
            ins.append(I(O(o)))
    s = S.create(ins)
    want = kind_of(ops)
    if want is None:
        h.check(type(s) is S and S.classify(s) is None, 'no standard form')
    else:
        h.check(type(s) is C[want], 'its standard form')
        h.check(S.classify(S(ins)) is C[want], 'classify')
        h.check(type(S.from_bytes(s.to_bytes())) is C[want], 'parsing classifies')
    h.check(s.instructions == tuple(ins), 'the instructions are untouched')
    h.check(s.is_push_only() == all(o <= 96 for o in ops), 'push only')


def pub(h, i, c=True):
    return h.bf.PrivateKey(i, compressed=c).to_public_key()


@unit('C14', cases=[dict(c=c, n=n) for c in (True, False) for n in (9, 72, 75)], more=[dict(c=True, n=n) for n in (1, 8, 73, 76, 100)])
def p2pkh_in(h, c, n):
    """PayToPubkeyIn: the key of every secret, any signature of 9, 72, 75 bytes."""
    C = classes(h)['PayToPubkeyIn']
    k = pub(h, h.int('secret', 1, 2 ** 200), c)
    sig = h.bytes('sig', n)
    s = C.create(k, sig)
    h.check(s.to_bytes() == push_bytes(smallest_push(n), sig) + push_bytes(smallest_push(len(k.to_bytes())), k.to_bytes()), 'wire form')
    q = h.bf.Script.from_bytes(s.to_bytes())
    for t in (s, q):
        h.check(type(t) is C and C.is_valid(t), 'recognized')
        h.check(t.get_signature() == sig, 'signature')
        h.check(t.get_public_key() == k, 'key')


@unit('C14')
def p2pkh_out(h):
    """PayToPubkeyOut: every address hash."""
    C = classes(h)['PayToPubkeyOut']
    p = h.bytes('p', 20)
    s = C.create(h.bf.Address(p))
    h.check(s.to_bytes() == bytes([118, 169, 20]) + p + bytes([136, 172]), 'wire form')
    q = h.bf.Script.from_bytes(s.to_bytes())
    for t in (s, q):
        h.check(type(t) is C and t.get_address_hash() == p, 'recognized')


@unit('C14', cases=[dict(n=n) for n in (1, 75, 80, 255)], more=[dict(n=n) for n in (256, 520)])
def op_return_out(h, n):
    """OpReturnOut: any data of 1, 75, 80, 255 bytes."""
    C = classes(h)['OpReturnOut']
    d = h.bytes('d', n)
    s = C.create(d)
    h.check(s.to_bytes() == bytes([106]) + push_bytes(smallest_push(n), d), 'wire form')
    for t in (s, h.bf.Script.from_bytes(s.to_bytes())):
        h.check(type(t) is C and t.get_data() == d, 'recognized')


@unit('C14', cases=[dict(n=n) for n in range(0, 4)])
def p2sh_out(h, n):
    """PayToScriptOut: every redeem script of 0..3 opcodes."""
    C = classes(h)['PayToScriptOut']
    O, I, S = h.bf.Opcode, h.bf.Instruction, h.bf.Script
    r = S([I(O(h.int('o%d' % i, 79, 255))) for i in range(n)])
    s = C.create(r)
    want = h.hash('ripemd160', h.hash('sha256', r.to_bytes()))
    h.check(s.to_bytes() == bytes([169, 20]) + want + bytes([135]), 'wire form')
    for t in (s, S.from_bytes(s.to_bytes())):
        h.check(type(t) is C and t.get_script_hash() == want, 'recognized')


@unit('C14', cases=[dict(n=n, k=k) for n in (1, 2, 3) for k in (1, 3)] + [dict(n=n, k=1) for n in (4, 5, 6, 8, 15, 16, 17, 20)])
def p2sh_in(h, n, k):
    """PayToScriptIn: 1..6, 8, 15..17, 20 signatures of 3 bytes (any), redeem scripts of 1 or 3 opcodes (any)."""
    C = classes(h)['PayToScriptIn']
    O, I, S = h.bf.Opcode, h.bf.Instruction, h.bf.Script
    r = S([I(O(h.int('o%d' % i, 97, 255))) for i in range(k)])
    sigs = [h.bytes('sig%d' % i, 3) for i in range(n)]
    s = C.create(r, sigs)
    want = b'\x00'
    for x in sigs + [r.to_bytes()]:
        want = want + push_bytes(len(x), x)
    h.check(s.to_bytes() == want, 'wire form')
    for t in (s, S.from_bytes(s.to_bytes())):
        h.check(type(t) is C, 'recognized')
        h.check(t.get_signatures() == sigs, 'signatures, in order')
        h.check(t.get_script().to_bytes() == r.to_bytes(), 'redeem script')
        h.check(t.get_script().instructions == r.instructions, 'redeem script')


@unit('C14', cases=[dict(n=n, c=c) for n in (1, 2, 3) for c in (True, False)] + [dict(n=n, c=c) for n in (4, 5, 6, 8, 15, 16) for c in (True, False)] + [dict(n=n, c='mixed') for n in (2, 3, 7)])
def multisig_redeem(h, n, c):
    """RedeemMultisig: 1..3 keys of any secrets, 4..6, 8, 15, 16 keys of which the first and last are of any secrets; any required number -1..17."""
    C = classes(h)['RedeemMultisig']
    ks = [pub(h, h.int('s%d' % i, 1, 2 ** 200) if n < 4 or i in (0, n - 1) else 2 ** 201 + i, i % 2 == 0 if c == 'mixed' else c) for i in range(n)]
    m = h.int('m', -1, 17)
    s, e = h.attempt(C.create, ks, m)
    if not 0 <= m <= 16:
        h.check(isinstance(e, ValueError), 'no such number')
        return
    h.check(e is None, 'created')
    want = bytes([0 if m == 0 else m + 80])
    for k in ks:
        want = want + push_bytes(len(k.to_bytes()), k.to_bytes())
    h.check(s.to_bytes() == want + bytes([80 + n, 174]), 'wire form')
    for t in (s, h.bf.Script.from_bytes(s.to_bytes())):
        h.check(type(t) is C, 'recognized')
        h.check(t.get_min_signatures() == m, 'required signatures')
        h.check(t.get_public_keys() == ks, 'keys, in order')


@unit('C14', cases=[dict(kind=k) for k in range(6)])
def compile_items(h, kind):
    """Script.compile: opcodes, numbers, byte strings and tuples, any values; anything else is a TypeError."""
    O, I, S = h.bf.Opcode, h.bf.Instruction, h.bf.Script
    n = h.int('n', 79, 255)
    d = h.bytes('d', 3)
    if kind == 0:
        s = S.compile([O(n), d])
        h.check(s.to_bytes() == bytes([n, 3]) + d, 'opcode and data')
    elif kind == 1:
        s = S.compile([n, n])
        h.check(s.to_bytes() == bytes([n, n]), 'numbers')
    elif kind == 2:
        p = h.choose('p', [76, 77, 78])
        s = S.compile([(O(p), d)])
        h.check(s.to_bytes() == push_bytes(p, d), 'tuple with an opcode')
    elif kind == 3:
        p = h.choose('p', [3, 76, 77, 78])
        s = S.compile([(p, d)])
        h.check(s.to_bytes() == push_bytes(p, d), 'tuple with a number')
    elif kind == 4:
        s, e = h.attempt(S.compile, [h.choose('x', ['OP_DUP', None, [1]])])
        h.check(isinstance(e, TypeError), 'anything else')
    else:
        m = h.int('m', -3, 300)
        s, e = h.attempt(S.compile, [m])
        if 0 <= m <= 255 and not 1 <= m <= 78:
            h.check(e is None and s.to_bytes() == bytes([m]), 'a number is an opcode')
        else:
            h.check(e is not None, 'not an opcode')
