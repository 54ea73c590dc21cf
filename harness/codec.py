"""Integers, variable-length integers, script numbers, buffers, hexadecimal, Base58Check."""
from harness.api import unit

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def le(n, k):
    return bytes([(n >> (8 * i)) & 255 for i in range(k)])


def be(n, k):
    return bytes([(n >> (8 * (k - 1 - i))) & 255 for i in range(k)])


# --- C05 integers

@unit('C05', cases=[dict(k=k, big=b) for k in (1, 2, 4, 8, 32) for b in (True, False)])
def fixed_width_roundtrip(h, k, big):
    """encode_int/decode_int with a length: every integer from -2 to 256^k+1, widths 1,2,4,8,32 bytes."""
    E = h.mods['bitforge.encoding']
    n = h.int('n', -2, 256 ** k + 1)
    v, e = h.attempt(E.encode_int, n, big_endian=big, length=k)
    fits = 0 <= n < 256 ** k
    if fits:
        h.check(e is None, 'a value that fits is encoded')
        h.check(isinstance(v, bytes), 'bytes')
        h.check(v == (be(n, k) if big else le(n, k)), 'fixed width encoding')
        h.check(E.decode_int(v, big_endian=big) == n, 'round trip')
    else:
        h.check(isinstance(e, E.IntegerOverflow), 'values that do not fit are rejected')


@unit('C05', cases=[dict(n=n, big=b) for n in (0, 1, 2, 5, 9) for b in (True, False)])
def decode_value(h, n, big):
    """decode_int: every byte string of 0,1,2,5,9 bytes."""
    E = h.mods['bitforge.encoding']
    b = h.bytes('b', n)
    v = E.decode_int(b, big_endian=big)
    x = 0
    for c in (b if big else b[::-1]):
        x = x * 256 + c
    h.check(v == x, 'positional value')
    h.check(E.encode_int(v, big_endian=big, length=n) == b if n else v == 0, 'inverse')


@unit('C05', cases=[dict(big=True), dict(big=False)])
def natural_width(h, big):
    """encode_int without a length: every integer 0..2^72-1; minimal width."""
    E = h.mods['bitforge.encoding']
    n = h.int('n', 0, 2 ** 72 - 1)
    v = E.encode_int(n, big_endian=big)
    h.check(E.decode_int(v, big_endian=big) == n, 'round trip')
    h.check(len(v) == 1 or n >= 256 ** (len(v) - 1), 'shortest')


@unit('C05')
def varint_encode(h):
    """encode_varint / Buffer.read_varint: every integer -2..2^64+1, followed by any byte."""
    E = h.mods['bitforge.encoding']
    T = h.mods['bitforge.tools']
    n = h.int('n', -2, 2 ** 64 + 1)
    t = h.bytes('tail', 1)
    v, e = h.attempt(E.encode_varint, n)
    if n < 0 or n >= 2 ** 64:
        h.check(isinstance(e, E.IntegerOverflow), 'rejected')
        return
    h.check(e is None, 'encoded')
    if n < 253:
        want = le(n, 1)
    elif n < 2 ** 16:
        want = b'\xfd' + le(n, 2)
    elif n < 2 ** 32:
        want = b'\xfe' + le(n, 4)
    else:
        want = b'\xff' + le(n, 8)
    h.check(v == want, 'canonical form')
    buf = T.Buffer(v + t)
    h.check(buf.read_varint() == n, 'round trip')
    h.check(bytes(buf) == t, 'reads exactly its own bytes')


@unit('C05', cases=[dict(n=n) for n in range(0, 10)])
def varint_decode(h, n):
    """Buffer.read_varint: every byte string of 0..9 bytes; truncation is reported and nothing is invented."""
    T = h.mods['bitforge.tools']
    b = h.bytes('b', n)
    buf = T.Buffer(b)
    v, e = h.attempt(buf.read_varint)
    if n == 0:
        need = 1
    else:
        o = b[0]
        need = 1 if o < 253 else 3 if o == 253 else 5 if o == 254 else 9
    if need > n:
        h.check(isinstance(e, T.Buffer.InsufficientData), 'truncated varints are reported')
        return
    h.check(e is None, 'complete varints are read')
    x = 0
    for c in (b[1:need] if need > 1 else b[:1])[::-1]:
        x = x * 256 + c
    h.check(v == x, 'value')
    h.check(bytes(buf) == b[need:], 'the rest stays in the buffer')


# --- C09 script numbers

def sn_value(b):
    """value of a script number: little-endian magnitude, sign in the top bit of the last byte"""
    if len(b) == 0:
        return 0
    x = 0
    for c in (b[:-1] + bytes([b[-1] & 0x7f]))[::-1]:
        x = x * 256 + c
    return -x if b[-1] >= 128 else x


def sn_minimal(b):
    if len(b) == 0:
        return True
    if b[-1] & 0x7f:
        return True
    return len(b) > 1 and b[-2] >= 128


def sn_encode(n):
    """shortest encoding of an integer of at most 64 bits"""
    if n == 0:
        return b''
    m = -n if n < 0 else n
    k = 1
    while m >= 256 ** k:
        k += 1
    e = le(m, k)
    if e[-1] >= 128:
        return e + (b'\x80' if n < 0 else b'\x00')
    return e[:-1] + bytes([e[-1] + (128 if n < 0 else 0)])


@unit('C09', cases=[dict(bits=40)], more=[dict(bits=128)])
def script_number_roundtrip(h, bits):
    """encode_script_number/decode_script_number: every integer of at most 40 bits (also: 128)."""
    E = h.mods['bitforge.encoding']
    n = h.int('n', -2 ** bits + 1, 2 ** bits - 1)
    b = bytes(E.encode_script_number(n))
    h.check(b == sn_encode(n), 'shortest sign-magnitude form')
    h.check(sn_value(b) == n, 'value')
    h.check(E.decode_script_number(b, f_require_minimal=True, size=bits // 8 + 1) == n, 'accepted as minimal, round trip')
    if bits == 40:
        v, e = h.attempt(E.decode_script_number, b)
        if -2 ** 31 < n < 2 ** 31:
            h.check(e is None and v == n, 'numbers of 31 bits are operands')
        else:
            h.check(isinstance(e, E.InvalidScriptNumber), 'wider numbers are not operands')


@unit('C09', cases=[dict(n=n, size=s) for n in range(0, 7) for s in (4, 5)])
def script_number_decode(h, n, size):
    """decode_script_number: every byte string of 0..6 bytes, sizes 4 and 5, with and without minimality."""
    E = h.mods['bitforge.encoding']
    b = h.bytes('b', n)
    m = h.bool('minimal')
    mutable = h.choose('mutable', [False, True])
    arg = bytearray(b) if mutable else b
    if size == 4:
        v, e = h.attempt(E.decode_script_number, arg, m)
    else:
        v, e = h.attempt(E.decode_script_number, arg, m, size)
    if n > size:
        h.check(isinstance(e, E.InvalidScriptNumber), 'too long')
    elif m and not sn_minimal(b):
        h.check(isinstance(e, E.InvalidMinimalScriptNumber), 'not minimal')
        h.check(isinstance(e, E.EncodingError), 'kind')
    else:
        h.check(e is None, 'accepted')
        h.check(v == sn_value(b), 'value')
        if m:
            h.check(bytes(E.encode_script_number(v)) == b, 'minimal encodings are unique')


# --- C10 buffers

@unit('C10', cases=[dict(n=n) for n in range(0, 6)])
def buffer_read(h, n):
    """Buffer.read: every buffer of 0..5 bytes, every amount 0..8, reads followed by another read and a write."""
    T = h.mods['bitforge.tools']
    b = h.bytes('b', n)
    k = h.choose('k', range(0, 9))
    j = h.choose('j', range(0, 4))
    w = h.bytes('w', 2)
    buf = T.Buffer(b)
    r, e = h.attempt(buf.read, k)
    if k > n:
        h.check(isinstance(e, T.Buffer.InsufficientData), 'never returns less than asked')
        h.check(e.requested == k and e.remaining == n, 'reports the amounts')
        h.check(bytes(buf) == b, 'a failed read consumes nothing')
        return
    h.check(e is None and bytes(r) == b[:k], 'the first k bytes')
    h.check(bytes(buf) == b[k:], 'exactly k bytes are consumed')
    buf.write(w)
    h.check(bytes(buf) == b[k:] + w, 'writes append')
    r2, e = h.attempt(buf.read, j)
    if j > n - k + 2:
        h.check(isinstance(e, T.Buffer.InsufficientData), 'end of data')
    else:
        h.check(bytes(r2) == (b[k:] + w)[:j], 'reads go on where they stopped')
    h.check(bytes(r) == b[:k], 'data already read is not disturbed')


@unit('C10', cases=[dict(n=n) for n in range(0, 7)])
def hex_decode(h, n):
    """decode_hex: every text of 0..6 characters (code points 0..300)."""
    E = h.mods['bitforge.encoding']
    s = h.text('s', n, lo=0, hi=300)
    v, e = h.attempt(E.decode_hex, s)
    ok = n % 2 == 0
    val = []
    for i in range(0, n - n % 2):
        c = ord(s[i])
        if 48 <= c <= 57:
            d = c - 48
        elif 97 <= c <= 102:
            d = c - 87
        elif 65 <= c <= 70:
            d = c - 55
        else:
            ok = False
            break
        val.append(d)
    if not ok:
        h.check(isinstance(e, E.InvalidHex), 'anything else is InvalidHex')
    else:
        h.check(e is None, 'accepted')
        h.check(bytes(v) == bytes([val[2 * i] * 16 + val[2 * i + 1] for i in range(n // 2)]), 'value')


@unit('C10', cases=[dict(n=n) for n in (0, 1, 3, 8)])
def hex_roundtrip(h, n):
    """encode_hex/decode_hex: every byte string of 0,1,3,8 bytes."""
    E = h.mods['bitforge.encoding']
    b = h.bytes('b', n)
    t = E.encode_hex(b)
    h.check(len(t) == 2 * n, 'two digits per byte')
    h.check(E.decode_hex(t) == b, 'round trip')
    h.check(E.decode_hex(t.decode('utf-8')) == b, 'round trip as text')


# --- C03 base58 / check

def b58_encode(b):
    """reference: big number in base 58, one '1' per leading zero byte"""
    z = 0
    while z < len(b) and b[z] == 0:
        z += 1
    v = 0
    for c in b:
        v = v * 256 + c
    out = []
    while v > 0:
        out.append(B58[v % 58])
        v = v // 58
    return '1' * z + ''.join(out[::-1])


def checksum(h, b):
    return h.hash('sha256', h.hash('sha256', b))[:4]


@unit('C03', cases=[dict(n=n) for n in range(0, 9)], more=[dict(n=n) for n in (21, 25, 34, 38, 78)], cost=5)
def base58check_roundtrip(h, n):
    """encode_base58h then decode_base58h: every payload of 0..8 bytes (also: up to 78)."""
    E = h.mods['bitforge.encoding']
    b = h.bytes('b', n)
    s = E.encode_base58h(b)
    h.check(isinstance(s, str), 'text')
    for c in s:
        h.check(c in B58, 'alphabet')
    v, e = h.attempt(E.decode_base58h, s)
    h.check(e is None, 'own encodings decode')
    h.check(v == b, 'round trip')


@unit('C03', cases=[dict(n=n) for n in range(0, 7)], more=[dict(n=n) for n in (20, 21, 33)])
def base58check_reference(h, n):
    """encode_base58h against a reference encoder: every payload of 0..6 bytes (also: up to 33)."""
    E = h.mods['bitforge.encoding']
    b = h.bytes('b', n)
    h.check(E.encode_base58h(b) == b58_encode(b + checksum(h, b)), 'payload and checksum in base 58')


def b58_decode(s):
    z = 0
    while z < len(s) and s[z] == '1':
        z += 1
    v = 0
    for c in s:
        v = v * 58 + B58.index(c)
    out = []
    while v > 0:
        out.append(v & 255)
        v = v >> 8
    return bytes([0] * z + out[::-1])


@unit('C03', cases=[dict(n=n) for n in range(0, 9)], more=[dict(n=n) for n in (12, 20, 34, 52)])
def base58check_decode(h, n):
    """decode_base58h: every text of 0..8 base58 characters (also: up to 52): accepted exactly when the checksum is right."""
    E = h.mods['bitforge.encoding']
    s = h.text('s', n, B58)
    v, e = h.attempt(E.decode_base58h, s)
    d = b58_decode(s)
    good = len(d) >= 4 and checksum(h, d[:-4]) == d[-4:]
    if good:
        h.reach('valid checksum')
        h.check(e is None and v == d[:-4], 'accepted')
        if n < 6:
            h.check(E.encode_base58h(v) == s, 'the text is the only one for this payload')
    else:
        h.check(isinstance(e, E.InvalidBase58h), 'wrong checksums are rejected')


@unit('C03', cases=[dict(n=n, i=i) for n in (1, 2, 5, 6) for i in range(n) if n < 5 or i in (0, 4)])
def base58check_alphabet(h, n, i):
    """decode_base58h: any character outside the alphabet (code points 0..0x3000), at any of the tested positions of texts of 1,2,5,6 characters."""
    E = h.mods['bitforge.encoding']
    s = h.text('s', n, B58)
    c = h.text('c', 1, lo=0, hi=0x3000)
    h.assume(c not in B58)
    v, e = h.attempt(E.decode_base58h, s[:i] + c + s[i + 1:])
    h.check(isinstance(e, E.InvalidBase58h), 'rejected')
    h.check(isinstance(e, h.mods['bitforge.errors'].BitforgeError), 'library error')


@unit('C03', cases=[dict(n=n) for n in (0, 1, 4, 21)])
def base58check_single_error(h, n):
    """decode_base58h after changing the payload: every pair of distinct payloads of equal length under one checksum is told apart, unless the hash truncation collides."""
    E = h.mods['bitforge.encoding']
    U = h.mods['bitforge.utils.encoding']
    b = h.bytes('b', n)
    k = h.bytes('k', 4)
    t = U.b2a_base58(b + k)
    v, e = h.attempt(E.decode_base58h, t)
    if checksum(h, b) == k:
        h.check(e is None and v == b, 'right checksum')
    else:
        h.check(isinstance(e, E.InvalidBase58h), 'wrong checksum')


@unit('C03', cases=[dict(n=n) for n in range(0, 12)], more=[dict(n=n) for n in (20, 34, 52)])
def base58_text_roundtrip(h, n):
    """utils.encoding.a2b_base58 then b2a_base58: every text of 0..11 base58 characters (also: up to 52) is the only one for its bytes."""
    U = h.mods['bitforge.utils.encoding']
    s = h.text('s', n, B58)
    b = U.a2b_base58(s)
    h.check(b == b58_decode(s), 'value')
    h.check(U.b2a_base58(b) == s, 'canonical')
