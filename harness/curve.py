"""Number theory, elliptic curves, ECDSA."""
from harness.api import unit
from harness.codec import be, le

# (p, a, b, order of the group, a point of it of prime order n, n)
CURVES = {
    'p23': (23, 1, 1, 28, (13, 7), 7),
    'p11': (11, 1, 6, 13, (2, 7), 13),
    'p17': (17, 0, 7, 18, None, None),
    'p7': (7, 2, 6, 11, (1, 3), 11),
    'p31': (31, 0, 3, 43, (1, 2), 43),
    'q11': (11, 2, 7, 7, (6, 2), 7),
    'q19': (19, 0, 3, 13, (1, 2), 13),
}


def NT(h):
    return h.mods['bitforge.utils.numbertheory']


def EC(h):
    return h.mods['bitforge.utils.ellipticcurve']


def curve(h, c):
    p, a, b = CURVES[c][:3]
    return EC(h).CurveFp(p, a, b)


def on_curve(c, x, y):
    p, a, b = CURVES[c][:3]
    return (y * y - x * x * x - a * x - b) % p == 0


def some_point(h, c, name, order=None):
    """any affine point of the curve"""
    p = CURVES[c][0]
    x, y = h.int(name + 'x', 0, p - 1), h.int(name + 'y', 0, p - 1)
    h.assume(on_curve(c, x, y))
    return x, y


# --- C37 number theory

PRIMES = (2, 3, 5, 7, 11, 13, 17, 23, 31, 97)


@unit('C35', cases=[dict(m=m) for m in (7, 11, 17, 23)], backend='bv', ec=False)
@unit('C37', cases=[dict(m=m) for m in (2, 3, 7, 11, 12, 23, 30, 43)], more=[dict(m=m) for m in (61, 64)], thorough=[dict(m=97)], backend='bv', ec=False)
def inverse(h, m):
    """inverse_mod: every a from -3m to 3m that is prime to the modulus; moduli 2..64 (thorough: 97), primes and composites."""
    a = h.int('a', -3 * m, 3 * m)
    r, e = h.attempt(NT(h).inverse_mod, a, m)
    if e is not None:
        # nothing is claimed where there is no inverse, except that none is invented
        h.check(any((a * i) % m == 0 for i in range(1, m)), 'an inverse exists')
        h.stop()
    h.check(0 <= r < m, 'reduced')
    h.check((r * a) % m == 1 % m, 'inverse')


@unit('C37', cases=[dict(p=p) for p in (3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 53, 61, 73, 97, 113)], more=[dict(p=p) for p in (127, 193, 257)], backend='bv', ec=False)
def sqrt_mod(h, p):
    """modular_sqrt and legendre_symbol: every residue modulo 18 primes from 3 to 113 (also: 257)."""
    a = h.int('a', 0, p - 1)
    h.reach('called')
    r = NT(h).modular_sqrt(a, p)
    s = NT(h).legendre_symbol(a, p)
    sq = any((i * i) % p == a for i in range(1, p))
    if a == 0:
        h.check(r == 0 and s == 0, 'zero')
    elif sq:
        h.check(s == 1, 'residue')
        h.check(0 < r < p and (r * r) % p == a, 'root')
    else:
        h.check(s == -1 and r == 0, 'non-residue')


@unit('C37', cases=[dict(n=n) for n in (1, 2, 4, 32)])
def intbytes_fixed(h, n):
    """utils.intbytes to_bytes/from_bytes: every integer that fits 1, 2, 4, 32 bytes, both byte orders."""
    m = h.mods['bitforge.utils.intbytes']
    v = h.int('v', 0, 256 ** n - 1)
    h.check(m.to_bytes(v, n) == be(v, n), 'big endian by default')
    h.check(m.to_bytes(v, n, byteorder='big') == be(v, n), 'big endian')
    h.check(m.to_bytes(v, n, byteorder='little') == le(v, n), 'little endian')
    h.check(m.from_bytes(be(v, n)) == v, 'read big endian by default')
    h.check(m.from_bytes(le(v, n), byteorder='little') == v, 'read little endian')
    h.check(m.from_bytes(be(v, n), byteorder='big') == v, 'read big endian')
    h.check(m.int_from_bytes(be(v, n)) == v, 'int_from_bytes')


@unit('C37', cases=[dict(n=n) for n in (1, 2, 4)])
def intbytes_signed(h, n):
    """utils.intbytes.from_bytes, signed: every byte string of 1, 2, 4 bytes, both byte orders."""
    m = h.mods['bitforge.utils.intbytes']
    v = h.int('v', -256 ** n // 2, 256 ** n // 2 - 1)
    u = v if v >= 0 else v + 256 ** n
    h.check(m.from_bytes(be(u, n), signed=True) == v, 'big endian')
    h.check(m.from_bytes(le(u, n), byteorder='little', signed=True) == v, 'little endian')


@unit('C37', cases=[{}])
def intbytes_natural(h):
    """utils.intbytes.int_to_bytes: every integer 0..2^72-1, minimal width."""
    m = h.mods['bitforge.utils.intbytes']
    v = h.int('v', 0, 2 ** 72 - 1)
    d = m.int_to_bytes(v)
    h.check(m.int_from_bytes(d) == v, 'value')
    h.check(len(d) == 0 or d[0] != 0, 'minimal')


@unit('C37', cases=[dict(n=n) for n in (1, 2, 5)])
def intbytes_overflow(h, n):
    """utils.intbytes.to_bytes: integers that do not fit are refused: every integer to 256^(n+1), and negative ones."""
    m = h.mods['bitforge.utils.intbytes']
    v = h.int('v', -300, 256 ** (n + 1))
    d, e = h.attempt(m.to_bytes, v, n)
    h.check((e is None) == (0 <= v < 256 ** n), 'refused exactly when it does not fit')


# --- C35 curve arithmetic

@unit('C35', cases=[dict(c=c) for c in ('p7', 'p11', 'p17', 'p23')], more=[dict(c='p31')], backend='bv', ec=False, inverse=True)
def contains(h, c):
    """CurveFp.contains_point and Point: every pair of integers 0..p-1 of five small curves."""
    p = CURVES[c][0]
    x, y = h.int('x', 0, p - 1), h.int('y', 0, p - 1)
    cu = curve(h, c)
    inside = on_curve(c, x, y)
    h.check(cu.contains_point(x, y) == inside, 'contains exactly its points')
    q, e = h.attempt(EC(h).Point, cu, x, y)
    h.check((e is None) == inside, 'only points of the curve')
    if e is None:
        h.check(q.x() == x and q.y() == y and q.pair() == (x, y) and q.curve() is cu, 'kept')


@unit('C35', cases=[dict(c=c) for c in ('p7', 'p11', 'p17')], more=[dict(c='p23')], backend='bv', ec=False, inverse=True, timeout=200000)
def add_points(h, c):
    """Point addition: every two points of five small curves, against the chord-and-tangent definition."""
    p, a, b = CURVES[c][:3]
    cu = curve(h, c)
    x1, y1 = some_point(h, c, 'p')
    x2, y2 = some_point(h, c, 'q')
    P, Q = EC(h).Point(cu, x1, y1), EC(h).Point(cu, x2, y2)
    R = P + Q
    if x1 == x2 and (y1 + y2) % p == 0:
        h.check(R == EC(h).INFINITY, 'opposite points')
        h.stop()
    h.check(not (R == EC(h).INFINITY), 'finite')
    x3, y3 = R.pair()
    h.check(0 <= x3 < p and 0 <= y3 < p, 'reduced')
    if x1 == x2:
        num, den = 3 * x1 * x1 + a, 2 * y1
    else:
        num, den = y2 - y1, x2 - x1
    h.check((num * num - (x1 + x2 + x3) * den * den) % p == 0, 'x of the third point')
    h.check((num * (x1 - x3) - (y1 + y3) * den) % p == 0, 'y of the third point')
    h.check(P.pair() == (x1, y1) and Q.pair() == (x2, y2), 'operands unchanged')


@unit('C35', cases=[dict(c=c) for c in ('p7', 'p11', 'p17', 'p23')], more=[dict(c='p31')], backend='bv', ec=False, inverse=True)
def double_point(h, c):
    """Point.double is adding the point to itself: every point of five small curves, points of order two included; infinity."""
    cu = curve(h, c)
    x, y = some_point(h, c, 'p')
    P = EC(h).Point(cu, x, y)
    D, S = P.double(), P + P
    h.check(D == S, 'same')
    if y == 0:
        h.check(D == EC(h).INFINITY, 'order two')
    else:
        h.check(0 <= D.x() < CURVES[c][0] and 0 <= D.y() < CURVES[c][0], 'reduced')
    I = EC(h).INFINITY
    h.check(I.double() == I and P + I == P and I + P == P and I + I == I, 'infinity is neutral')


MULTIPLES = [('p7', k) for k in range(0, 9)] + [('p11', k) for k in range(0, 6)] + [('p17', k) for k in range(0, 4)]


@unit('C35', cases=[dict(c=c, k=k) for c, k in MULTIPLES], more=[dict(c='p11', k=k) for k in (6, 7, 8, 9)], backend='bv', ec=False, inverse=True, cost=2)
def multiply(h, c, k):
    """Scalar multiplication is repeated addition: every point of three small curves, multiples 0..8, 0..5, 0..3, on either side, with and without an order that it is reduced by."""
    cu = curve(h, c)
    x, y = some_point(h, c, 'p')
    P = EC(h).Point(cu, x, y)
    R = EC(h).INFINITY
    for i in range(k):
        R = R + P
    h.check(P * k == R and k * P == R, 'repeated addition')
    n = CURVES[c][3]
    Q = EC(h).Point(cu, x, y, n)
    h.check(Q.order() == n, 'order kept')
    h.check(Q * (k + n) == R and Q * (k - n) == R, 'reduced by the order')


@unit('C35', cases=[dict(c=c, k=k) for c in ('p7', 'p23') for k in (8, 16, 17, 32, 64, 255, 256)], more=[dict(c=c, k=k) for c in ('p11', 'p31') for k in (9, 15, 31, 33, 128, 300)], ec=False, cost=4)
def multiply_big(h, c, k):
    """Scalar multiplication by 2^k + 0..7 and 2^k - 1..8, for k = 8, 16, 17, 32, 64, 255, 256, of every point of two small curves (also: four), with and without an order."""
    cu = curve(h, c)
    p, n = CURVES[c][0], CURVES[c][3]
    pts = [(a, b) for a in range(p) for b in range(p) if on_curve(c, a, b)]
    x, y = h.choose('point', pts)
    e = 2 ** k + fork(h.int('e', -8, 7), -8, 7)
    want = None
    for i in range(e % n):
        want = ref_add(c, want, (x, y))
    for q in (EC(h).Point(cu, x, y), EC(h).Point(cu, x, y, n)):
        R = q * e
        h.check((R == EC(h).INFINITY) if want is None else R.pair() == want, 'multiple')


@unit('C35', cases=[dict(c=c, i=i) for c in ('p7', 'p11', 'p23') for i in (0, 1, 2)], more=[dict(c='p31', i=i) for i in (0, 5)], ec=False, cost=4)
def multiply_any(h, c, i):
    """Scalar multiplication by every number 0..3n+2 (n: order of the curve), of several points of small curves, with and without an order."""
    cu = curve(h, c)
    p, n = CURVES[c][0], CURVES[c][3]
    x, y = [(a, b) for a in range(p) for b in range(p) if on_curve(c, a, b)][i]
    P = EC(h).Point(cu, x, y)
    k = h.int('k', 0, 3 * n + 2)
    R = P * k
    table = [None]
    for j in range(3 * n + 2):
        q = table[-1]
        table.append(ref_add(c, q, (x, y)))
    for j in range(3 * n + 3):
        if k == j:
            h.check((R == EC(h).INFINITY) if table[j] is None else R.pair() == table[j], 'multiple')
    Q = EC(h).Point(cu, x, y, n)
    h.check(Q * k == R, 'with an order')


def ref_add(c, a, b):
    p, ca = CURVES[c][0], CURVES[c][1]
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % p == 0:
            return None
        num, den = 3 * a[0] * a[0] + ca, 2 * a[1]
    else:
        num, den = b[1] - a[1], b[0] - a[0]
    l = [z for z in range(p) if (z * den - num) % p == 0][0]
    x = (l * l - a[0] - b[0]) % p
    return (x, (l * (a[0] - x) - a[1]) % p)


# --- C36 ECDSA

import hashlib

TOY = ('p7', 'q11', 'q19')
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141


def DSA(h):
    return h.mods['bitforge.utils.ecdsa']


def generator(h, c):
    g, n = CURVES[c][4:]
    return EC(h).Point(curve(h, c), g[0], g[1], n)


def multiples(c):
    """0*G, 1*G ... (n-1)*G"""
    g, n = CURVES[c][4:]
    out = [None]
    for i in range(n - 1):
        out.append(ref_add(c, out[-1], g))
    return out


def fork(v, lo, hi):
    """v as a concrete number: one path per value"""
    for i in range(lo, hi):
        if v == i:
            return i
    return hi


def valid(c, d, val, r, s):
    """the definition: is (r, s) a signature of val under the key with secret d (all concrete but val)"""
    n = CURVES[c][5]
    if not (1 <= r < n and 1 <= s < n):
        return False
    w = [z for z in range(n) if (z * s) % n == 1][0]
    k = fork((w * (val + r * d)) % n, 0, n - 1)
    R = multiples(c)[k]
    return R is not None and R[0] % n == r


@unit('C07', cases=[dict(c=c) for c in ('p7', 'p11', 'q11', 'q19', 'p23', 'p31')], backend='bv', ec=False, inverse=True)
@unit('C36', cases=[dict(c=c) for c in ('p7', 'p11', 'q11', 'q19', 'p23', 'p31')], backend='bv', ec=False, inverse=True)
def toy_valid(h, c):
    """utils.ecdsa.is_public_pair_valid on six small curves: every pair of integers from -3 to 3p: valid exactly when both are in the field and on the curve."""
    p = CURVES[c][0]
    x, y = h.int('x', -3, 3 * p), h.int('y', -3, 3 * p)
    v = DSA(h).is_public_pair_valid(generator(h, c), (x, y))
    h.check((0 <= x < p and 0 <= y < p and on_curve(c, x, y)) == bool(v), 'exactly the points of the curve')


@unit('C36', cases=[dict(c=c, top=t) for c in TOY for t in (0, 3, 6, 9, 12, 15)], more=[dict(c=c, top=t) for c in TOY for t in (1, 2, 4, 5, 7, 8)], ec=False, cost=5)
def toy_sign(h, c, top):
    """ECDSA sign on three small curves (orders above and below the field): every secret, every value with the tested leading bits: a valid signature, accepted by verify."""
    n = CURVES[c][5]
    g = generator(h, c)
    d = fork(h.int('d', 1, n - 1), 1, n - 1)
    val = top * 2 ** 252 + h.int('low', 0, 2 ** 252 - 1)
    sig, e = h.attempt(DSA(h).sign, g, d, val)
    if e is not None:
        h.check(isinstance(e, RuntimeError), 'only an unlucky nonce')
        h.stop()
    r, s = fork(sig[0], 0, n), fork(sig[1], 0, n)
    h.check(valid(c, d, val, r, s), 'valid')
    Q = multiples(c)[d]
    h.check(DSA(h).verify(g, Q, val, (r, s)), 'verify accepts it')


@unit('C36', cases=[dict(c=c, d=d) for c in TOY for d in (1, 3)], more=[dict(c=c, d=d) for c in TOY for d in (2, 4, 6)], ec=False, cost=5)
def toy_verify(h, c, d):
    """ECDSA verify on three small curves: every r and s from -1 to n+1, any value 0..2^256-1: accepted exactly when valid."""
    n = CURVES[c][5]
    r, s = fork(h.int('r', -1, n + 1), -1, n + 1), fork(h.int('s', -1, n + 1), -1, n + 1)
    val = h.int('val', 0, 2 ** 256 - 1)
    ok = DSA(h).verify(generator(h, c), multiples(c)[d], val, (r, s))
    h.check(bool(ok) == valid(c, d, val, r, s), 'accepted exactly when valid')


@unit('C36', cases=[dict(c=c, d=d) for c in ('p7', 'q11') for d in (1, 3)], more=[dict(c='q19', d=d) for d in (2, 4)], ec=False, cost=5)
def toy_recover(h, c, d):
    """possible_public_pairs_for_signature on small curves: every nonce and any value: the signer's key is among the results, and each of them verifies."""
    n = CURVES[c][5]
    m = multiples(c)
    k = fork(h.int('k', 1, n - 1), 1, n - 1)
    val = h.int('val', 0, 2 ** 256 - 1)
    r = m[k][0] % n
    h.assume(r != 0 and m[k][0] < n)
    w = [z for z in range(n) if (z * k) % n == 1][0]
    s = fork((w * (val + r * d)) % n, 0, n - 1)
    h.assume(s != 0)
    got = DSA(h).possible_public_pairs_for_signature(generator(h, c), val, (r, s))
    h.check(m[d] in got, 'the key is recovered')
    for q in got:
        h.check(DSA(h).verify(generator(h, c), q, val, (r, s)), 'each verifies')


@unit('C36', cases=[dict(c=c) for c in ('p7', 'p11', 'q11', 'q19', 'p23', 'p17')], ec=False)
def toy_point_for_x(h, c):
    """public_pair_for_x and is_public_pair_valid on small curves: every x of the field and parity; every pair -2..p+2."""
    p = CURVES[c][0]
    x = fork(h.int('x', 0, p - 1), 0, p - 1)
    even = h.bool('even')
    ys = [y for y in range(1, p) if on_curve(c, x, y)]
    cu = curve(h, c)
    g = [(a, b) for a in range(p) for b in range(p) if on_curve(c, a, b)][0]
    g = EC(h).Point(cu, g[0], g[1])
    if ys:
        q = DSA(h).public_pair_for_x(g, x, even)
        h.check(q[0] == x and q[1] in ys, 'on the curve')
        h.check((q[1] % 2 == 0) == even, 'of that parity')
    a, b = h.int('a', -2, p + 2), h.int('b', -2, p + 2)
    inside = 0 <= a < p and 0 <= b < p and on_curve(c, a, b)
    h.check(bool(DSA(h).is_public_pair_valid(g, (a, b))) == inside, 'valid exactly on the curve')


@unit('C36', cases=[dict(c=c) for c in TOY], ec=False)
def toy_public(h, c):
    """public_pair_for_secret_exponent on small curves: every secret."""
    n = CURVES[c][5]
    d = h.int('d', 1, n - 1)
    q = DSA(h).public_pair_for_secret_exponent(generator(h, c), d)
    h.check(tuple(q) == multiples(c)[fork(d, 1, n - 1)], 'multiple of the generator')


def rfc6979(h, n, d, val, hash_name, size, rounds):
    """candidates of RFC 6979 section 3.2, in order"""
    bits = n.bit_length()
    olen = (bits + 7) // 8
    z = val
    if 8 * size > bits:
        z = val // 2 ** (8 * size - bits)
    if z >= n:
        z = z - n
    x = be(d, olen) + be(z, olen)
    v, k = b'\x01' * size, b'\x00' * size
    k = h.hmac(hash_name, k, v + b'\x00' + x)
    v = h.hmac(hash_name, k, v)
    k = h.hmac(hash_name, k, v + b'\x01' + x)
    v = h.hmac(hash_name, k, v)
    for i in range(rounds):
        t = b''
        while len(t) < olen:
            v = h.hmac(hash_name, k, v)
            t = t + v
        c = 0
        for b in t:
            c = c * 256 + b
        yield c // 2 ** (8 * len(t) - bits)
        k = h.hmac(hash_name, k, v + b'\x00')
        v = h.hmac(hash_name, k, v)


ORDERS = {'secp256k1': N, 'toy': 11, 'p192': 6277101735386680763835789423176059013767194773182842284081,
          'p521': 2 ** 521 - 0x5ae79787c40d069948033feb708f65a2fc44a36477663b851449048e16ec79bf7}


@unit('C36', cases=[dict(order=o, hash=a) for o, a in (('secp256k1', 'sha256'), ('toy', 'sha256'), ('p192', 'sha256'), ('p521', 'sha256'),
                                                      ('secp256k1', 'sha512'), ('secp256k1', 'sha1'))], ec=False, cost=3)
def nonce(h, order, hash):
    """deterministic_generate_k: any secret and hash value, four group orders, three hashes: RFC 6979's first candidate in range, when it is one of the first two."""
    n = ORDERS[order]
    size = {'sha256': 32, 'sha512': 64, 'sha1': 20}[hash]
    d = h.int('d', 1, n - 1)
    val = h.int('val', 0, 256 ** size - 1)
    cs = list(rfc6979(h, n, d, val, hash, size, 2))
    first = 1 <= cs[0] < n
    h.assume(first or 1 <= cs[1] < n)
    if hash == 'sha256':
        k = DSA(h).deterministic_generate_k(n, d, val)
    else:
        k = DSA(h).deterministic_generate_k(n, d, val, getattr(hashlib, hash))
    h.check(k == (cs[0] if first else cs[1]), 'first candidate in range')


# --- the real curve, concretely (everything else uses its abstract group)

P256 = 2 ** 256 - 2 ** 32 - 977
G256 = (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798, 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)


def ref_add256(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P256 == 0:
            return None
        l = 3 * a[0] * a[0] * pow(2 * a[1], -1, P256) % P256
    else:
        l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P256) % P256
    x = (l * l - a[0] - b[0]) % P256
    return (x, (l * (a[0] - x) - a[1]) % P256)


def ref_mul256(k):
    r, q = None, G256
    while k:
        if k % 2:
            r = ref_add256(r, q)
        q = ref_add256(q, q)
        k //= 2
    return r


SCALARS = [1, 2, 3, 2 ** 255 + 12345, 2 ** 128 - 1, N - 2, N - 1, 0xaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa,
           0x5dee66c8e1f2a3b4c5d6e7f8091a2b3c4d5e6f708192a3b4c5d6e7f8091a2b3c]


@unit('C35', cases=[dict(i=i) for i in range(len(SCALARS))], ec=False, ticks=40000000)
def real_curve(h, i):
    """secp256k1 itself: its parameters, and nine concrete multiples of the generator, reduced by any multiple 0..3 of the order."""
    g = h.mods['bitforge.utils.secp256k1'].generator_secp256k1
    c = g.curve()
    h.check((c.p(), c.a(), c.b()) == (P256, 0, 7) and g.pair() == G256 and g.order() == N, 'parameters')
    k = SCALARS[i] + N * fork(h.int('w', 0, 3), 0, 3)
    h.check((g * k).pair() == ref_mul256(SCALARS[i]), 'multiple of the generator')
