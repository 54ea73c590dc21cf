"""Private keys, public keys, addresses."""
from harness.api import unit
from harness.codec import be, le, checksum, B58, b58_decode

N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
P = 2 ** 256 - 2 ** 32 - 977


def nets(h):
    m = h.mods['bitforge.networks']
    return [m.livenet, m.testnet]


WIF = {'livenet': 0x80, 'testnet': 0xef}
PKH = {'livenet': 0x00, 'testnet': 0x6f}
SH = {'livenet': 0x05, 'testnet': 0xc4}


def payload(h, text):
    """what a Base58Check text carries (the codec itself is C03)"""
    return h.mods['bitforge.encoding'].decode_base58h(text)


def text_of(h, data):
    """the Base58Check text of data (the codec itself is C03)"""
    return h.mods['bitforge.encoding'].encode_base58h(data)


# --- C01 private key encodings

@unit('C01', cases=[dict(net=n, c=c) for n in (0, 1) for c in (True, False)], cost=9)
def privkey_roundtrip(h, net, c):
    """PrivateKey to/from WIF, bytes, hex: every secret 1..n-1, both networks, both compressions."""
    net = nets(h)[net]
    s = h.int('secret', 1, N - 1)
    k = h.bf.PrivateKey(s, net, c)
    h.check(k.to_bytes() == be(s, 32), '32 bytes, big endian')
    h.check(h.mods['bitforge.encoding'].decode_hex(k.to_hex()) == be(s, 32), 'hexadecimal')
    for q in (h.bf.PrivateKey.from_bytes(k.to_bytes(), net, c), h.bf.PrivateKey.from_hex(k.to_hex(), net, c),
              h.bf.PrivateKey.from_wif(k.to_wif())):
        h.check(q.secret == s, 'same secret')
        h.check(q.network is net, 'same network')
        h.check(q.compressed == c, 'same compression')
        h.check(q == k, 'equal')


@unit('C01', cases=[dict(net=n, c=c) for n in (0, 1) for c in (True, False)], cost=9)
def privkey_wif_format(h, net, c):
    """PrivateKey.to_wif: every secret, both networks, both compressions, against the WIF definition."""
    net = nets(h)[net]
    s = h.int('secret', 1, N - 1)
    k = h.bf.PrivateKey(s, net, c)
    want = bytes([WIF[net.name]]) + be(s, 32) + (b'\x01' if c else b'')
    h.check(payload(h, k.to_wif()) == want, 'prefix, secret, compression byte')


@unit('C01', cases=[dict(n=n) for n in (0, 1, 4, 32, 33, 34, 35, 36)], cost=5)
def privkey_from_wif(h, n):
    """PrivateKey.from_wif: every payload of 0,1,4,32..36 bytes with a right checksum is accepted exactly when it is a WIF."""
    d = h.bytes('d', n)
    k, e = h.attempt(h.bf.PrivateKey.from_wif, text_of(h, d))
    K = h.bf.PrivateKey
    if n not in (33, 34):
        h.check(isinstance(e, K.InvalidWifLength), 'length')
        return
    if n == 34 and d[33] != 1:
        h.check(isinstance(e, K.InvalidCompressionByte), 'compression byte')
        return
    p = d[0]
    if p != 0x80 and p != 0xef:
        h.check(isinstance(e, K.UnknownNetwork), 'network')
        return
    s = 0
    for c in d[1:33]:
        s = s * 256 + c
    if s == 0 or s >= N:
        h.check(isinstance(e, K.InvalidSecret), 'secret out of range')
        return
    h.reach('accepted')
    h.check(e is None, 'accepted')
    h.check(k.secret == s and k.compressed == (n == 34), 'decoded')
    h.check(k.network.name == ('livenet' if p == 0x80 else 'testnet'), 'network')


@unit('C01', cases=[dict(n=n) for n in (0, 1, 31, 32, 33, 64)])
def privkey_from_bytes(h, n):
    """PrivateKey.from_bytes / from_hex: every byte string of 0,1,31,32,33,64 bytes."""
    K = h.bf.PrivateKey
    d = h.bytes('d', n)
    hexa = h.choose('hex', [False, True])
    c = h.bool('compressed')
    net = h.choose('net', nets(h))
    if hexa:
        t = h.mods['bitforge.encoding'].encode_hex(d).decode('utf-8')
        k, e = h.attempt(K.from_hex, t, net, c)
    else:
        k, e = h.attempt(K.from_bytes, d, net, c)
    if n != 32:
        h.check(isinstance(e, K.InvalidBinaryLength), 'length')
        return
    s = 0
    for x in d:
        s = s * 256 + x
    if s == 0 or s >= N:
        h.check(isinstance(e, K.InvalidSecret), 'range')
    else:
        h.check(e is None and k.secret == s and k.network is net and k.compressed == c, 'decoded')


@unit('C01', cases=[dict(n=n) for n in (0, 1, 5, 52)])
def privkey_bad_text(h, n):
    """PrivateKey.from_wif / from_hex: any text with one character outside both alphabets, 1..52 characters, and the empty text."""
    K = h.bf.PrivateKey
    s = h.text('s', n, B58)
    if n:
        i = h.choose('i', sorted({0, n // 2, n - 1}))
        c = h.text('c', 1, lo=0, hi=0x2fff)
        h.assume(c not in B58)
        h.assume(c not in '0123456789abcdefABCDEF')
        s = s[:i] + c + s[i + 1:]
    v, e = h.attempt(K.from_wif, s)
    h.check(isinstance(e, K.InvalidBase58h), 'WIF')
    v, e = h.attempt(K.from_hex, s)
    h.check(isinstance(e, K.InvalidHex) or n == 0 and isinstance(e, K.InvalidBinaryLength), 'hexadecimal')
    h.check(isinstance(e, K.Error), 'errors are PrivateKey.Error')


# --- C02 domain

@unit('C02')
def privkey_domain(h):
    """PrivateKey(secret): every integer -2^257..2^257."""
    K = h.bf.PrivateKey
    s = h.int('secret', -2 ** 257, 2 ** 257)
    k, e = h.attempt(K, s)
    if 0 < s < N:
        h.check(e is None and k.secret == s, 'accepted')
        h.check(k.network is nets(h)[0] and k.compressed is True, 'defaults')
    else:
        h.check(isinstance(e, K.InvalidSecret), 'rejected')
        h.check(isinstance(e, K.Error), 'kind of error')


@unit('C02', rng=True)
def privkey_random(h):
    """PrivateKey() with no secret: every value the system's random source can give; a fresh draw per key."""
    K = h.bf.PrivateKey
    a = K()
    h.check(0 < a.secret < N, 'valid secret')
    h.check(len(h.rng_kinds()) >= 1, 'drawn from the random source')
    n = len(h.rng_kinds())
    b = K(network=nets(h)[1], compressed=False)
    h.check(0 < b.secret < N, 'valid secret')
    h.check(len(h.rng_kinds()) > n, 'a new draw for each key')
    h.check(all(x == 'system' for x in h.rng_kinds()), 'the operating system is the only source')
    h.check(b.network is nets(h)[1] and b.compressed is False, 'other parameters are kept')


@unit('C02', rng=True)
def privkey_random_covers(h):
    """random_secret: the source can give at least as many values as there are secrets, and the secret is an injective function of what it gave: so every secret is possible and no entropy is lost."""
    K = h.bf.PrivateKey
    a = K()
    v = h.rng_values()
    size = 1
    for s in h.rng_sizes():
        size *= s
    h.check(size >= N - 1, 'as many values as secrets')
    b = K()
    w = h.rng_values()
    if len(v) != 1 or len(w) != 2:
        h.stop()
    w = w[1]
    if v[0] == w:
        h.check(a.secret == b.secret, 'a function of the draw')
    else:
        h.check(a.secret != b.secret, 'different draws give different secrets')


@unit('C02')
def privkey_network(h):
    """PrivateKey(network): any name of 0..9 characters; networks given by object, or by name."""
    K = h.bf.PrivateKey
    n = h.choose('n', range(0, 10))
    t = h.text('t', n, lo=0, hi=255)
    k, e = h.attempt(K, 5, t)
    if t == 'livenet' or t == 'testnet':
        h.check(e is None and k.network.name == t, 'known name')
        h.check(k.network is (nets(h)[0] if t == 'livenet' else nets(h)[1]), 'the network object')
    else:
        h.check(isinstance(e, K.UnknownNetwork), 'unknown names are rejected')


# --- C04 addresses

@unit('C04', cases=[dict(net=n, t=t) for n in (0, 1) for t in ('PublicKey', 'Script')], cost=3)
def address_roundtrip(h, net, t):
    """Address to/from text, bytes, hex: every 20-byte hash, both networks, both types."""
    A = h.bf.Address
    net = nets(h)[net]
    typ = A.Type[t]
    p = h.bytes('p', 20)
    a = A(p, net, typ)
    version = (PKH if t == 'PublicKey' else SH)[net.name]
    want = bytes([version]) + p
    h.check(a.to_bytes() == want, 'version and hash')
    h.check(payload(h, a.to_string()) == want, 'text form')
    h.check(h.mods['bitforge.encoding'].decode_hex(a.to_hex()) == want, 'hexadecimal')
    for q in (A.from_string(a.to_string()), A.from_bytes(a.to_bytes()), A.from_hex(a.to_hex())):
        h.check(q.phash == p and q.network is net and q.type is typ, 'same address')
        h.check(q == a, 'equal')


@unit('C04', cases=[dict(n=n, how=w) for n in (0, 1, 20, 21, 22, 25) for w in ('bytes', 'hex', 'text')], cost=2)
def address_parse(h, n, how):
    """Address.from_bytes/from_hex/from_string: every payload of 0,1,20,21,22,25 bytes is accepted exactly when it has 21 bytes and a known version."""
    A = h.bf.Address
    d = h.bytes('d', n)
    if how == 'bytes':
        a, e = h.attempt(A.from_bytes, d)
    elif how == 'hex':
        a, e = h.attempt(A.from_hex, h.mods['bitforge.encoding'].encode_hex(d).decode('utf-8'))
    else:
        a, e = h.attempt(A.from_string, text_of(h, d))
    if n != 21:
        h.check(isinstance(e, A.InvalidBinaryLength), 'length')
        return
    v = d[0]
    kinds = {0x00: ('livenet', 'PublicKey'), 0x6f: ('testnet', 'PublicKey'), 0x05: ('livenet', 'Script'), 0xc4: ('testnet', 'Script')}
    for k in kinds:
        if v == k:
            h.check(e is None, 'accepted')
            h.check(a.network.name == kinds[k][0] and a.type is A.Type[kinds[k][1]] and a.phash == d[1:], 'classified by version')
            h.check(a.to_bytes() == d, 'and back')
            return
    h.check(isinstance(e, A.InvalidVersion) and isinstance(e, A.Error), 'unknown versions are rejected')


@unit('C04', cases=[dict(n=n) for n in (0, 1, 19, 20, 21, 32, 40, 60, 80)], more=[dict(n=n) for n in (10, 25, 33, 64, 65, 160)])
def address_construct(h, n):
    """Address(hash): hashes of 0,1,19,20,21,32,40,60,80 bytes; types and networks of any kind."""
    A = h.bf.Address
    p = h.bytes('p', n)
    t = h.choose('type', [A.Type.PublicKey, A.Type.Script, 'pubkeyhash', 'PublicKey', None, 0])
    net = h.choose('net', nets(h) + ['livenet', 'testnet', 'nonet', None])
    a, e = h.attempt(A, p, net, t)
    if net is None or net == 'nonet':
        h.check(isinstance(e, A.UnknownNetwork), 'unknown network')
    elif not isinstance(t, A.Type):
        h.check(isinstance(e, A.InvalidType), 'unknown type')
    elif n != 20:
        h.check(isinstance(e, A.InvalidHashLength), 'length')
    else:
        h.check(e is None and a.phash == p and a.type is t, 'accepted')
        h.check(a.network is (nets(h)[0] if net in (nets(h)[0], 'livenet') else nets(h)[1]), 'network')


@unit('C04', cases=[dict(n=n) for n in (0, 1, 6, 33)])
def address_bad_text(h, n):
    """Address.from_string / from_hex: any text with a character outside the alphabets."""
    A = h.bf.Address
    s = h.text('s', n, B58)
    if n:
        i = h.choose('i', sorted({0, n // 2, n - 1}))
        c = h.text('c', 1, lo=0, hi=0x2fff)
        h.assume(c not in B58)
        h.assume(c not in '0123456789abcdefABCDEF')
        s = s[:i] + c + s[i + 1:]
    v, e = h.attempt(A.from_string, s)
    h.check(isinstance(e, A.InvalidBase58h), 'base58')
    v, e = h.attempt(A.from_hex, s)
    h.check(isinstance(e, A.InvalidHex) or n == 0 and isinstance(e, A.InvalidBinaryLength), 'hexadecimal')


@unit('C04', cases=[dict(n=n) for n in (33, 34)], more=[dict(n=n) for n in (26, 30, 35)], cost=3)
def address_any_text(h, n):
    """Address.from_string: every text of 33..34 base58 characters (also: 26, 30, 35): the address it gives prints as that text's payload."""
    A = h.bf.Address
    s = h.text('s', n, B58)
    a, e = h.attempt(A.from_string, s)
    if e is None:
        h.reach('accepted')
        h.check(a.to_bytes() == b58_decode(s)[:-4], 'the payload')
        h.check(len(a.phash) == 20, 'length')
    else:
        h.check(isinstance(e, A.Error), 'only Address errors')


# --- C06 / C07 public keys

@unit('C06', cases=[dict(c=c) for c in (True, False)])
def pubkey_roundtrip(h, c):
    """PublicKey of every private key, both compressions and networks, to/from SEC bytes and hex."""
    PK = h.bf.PublicKey
    net = h.choose('net', nets(h))
    s = h.int('secret', 1, N - 1)
    k = h.bf.PrivateKey(s, net, c).to_public_key()
    x, y = h.point(s)
    h.check(k.pair[0] == x and k.pair[1] == y, 'the point secret*G')
    h.check(k.network is net and k.compressed == c, 'network and compression of the private key')
    b = k.to_bytes()
    if c:
        h.check(b == bytes([2 + (y & 1)]) + be(x, 32), 'compressed SEC')
    else:
        h.check(b == b'\x04' + be(x, 32) + be(y, 32), 'uncompressed SEC')
    for q in (PK.from_bytes(b, net), PK.from_hex(k.to_hex(), net)):
        h.check(q.pair[0] == x and q.pair[1] == y, 'same point')
        h.check(q.network is net and q.compressed == c, 'same network and compression')
        h.check(q == k, 'equal')
    h.check(h.mods['bitforge.encoding'].decode_hex(k.to_hex()) == b, 'hexadecimal')


@unit('C06')
def pubkey_parity(h):
    """Compressed keys: of every private key and its negation (same x, other y) never collide, and both come back."""
    PK = h.bf.PublicKey
    s = h.int('secret', 1, N - 1)
    a = h.bf.PrivateKey(s).to_public_key()
    b = h.bf.PrivateKey(N - s).to_public_key()
    h.check(a.to_bytes()[1:] == b.to_bytes()[1:], 'same x')
    h.check(a.to_bytes() != b.to_bytes(), 'the prefix tells y')
    h.check(PK.from_bytes(a.to_bytes()).pair[1] + PK.from_bytes(b.to_bytes()).pair[1] == P, 'opposite points')


@unit('C07', cases=[dict(n=n) for n in (0, 1, 2, 32, 33, 34, 64, 65, 66)])
def pubkey_parse(h, n):
    """PublicKey.from_bytes: every byte string of 0,1,2,32..34,64..66 bytes: accepted exactly when it is the SEC form of a point of the curve."""
    PK = h.bf.PublicKey
    b = h.bytes('b', n)
    k, e = h.attempt(PK.from_bytes, b)
    p = b[0] if n else 0
    if n == 33 and (p == 2 or p == 3):
        x = 0
        for c in b[1:33]:
            x = x * 256 + c
        if x < P and h.is_square(x * x * x + 7):
            h.reach('compressed point')
            h.check(e is None, 'accepted')
            h.check(k.pair[0] == x, 'x')
            h.check(0 <= k.pair[1] < P, 'y in the field')
            h.check((k.pair[1] & 1) == (p & 1), 'parity of y')
            h.check(h.congruent(k.pair[1] * k.pair[1], x * x * x + 7, P), 'on the curve')
            h.check(k.compressed is True, 'compressed')
        else:
            h.check(e is not None, 'no such point')
            h.check(isinstance(e, PK.Error), 'kind of error')
    elif n == 65 and p == 4:
        x = 0
        for c in b[1:33]:
            x = x * 256 + c
        y = 0
        for c in b[33:]:
            y = y * 256 + c
        if e is None:
            h.reach('uncompressed point')
            h.check(x < P and y < P, 'coordinates in the field')
            h.check((y * y - x * x * x - 7) % P == 0, 'on the curve')
            h.check(k.pair[0] == x and k.pair[1] == y and k.compressed is False, 'the point')
        else:
            h.check(isinstance(e, PK.Error), 'kind of error')
            h.check(x >= P or y >= P or (y * y - x * x * x - 7) % P != 0, 'only bad points are rejected')
    else:
        h.check(isinstance(e, PK.InvalidBinary), 'not a SEC form')


@unit('C07')
def pubkey_pair(h):
    """PublicKey(pair): every pair of integers -2..2^257: accepted exactly when both are in the field and on the curve."""
    PK = h.bf.PublicKey
    x = h.int('x', -2, 2 ** 257)
    y = h.int('y', -2, 2 ** 257)
    k, e = h.attempt(PK, (x, y))
    if e is None:
        h.check(0 <= x < P and 0 <= y < P, 'coordinates in the field')
        h.check((y * y - x * x * x - 7) % P == 0, 'on the curve')
        h.check(k.pair[0] == x and k.pair[1] == y, 'the pair')
    else:
        h.check(isinstance(e, PK.InvalidPair), 'kind of error')
        h.check(not (0 <= x < P and 0 <= y < P) or (y * y - x * x * x - 7) % P != 0, 'points of the curve are accepted')


@unit('C07', cases=[dict(i=i) for i in range(4)])
def pubkey_real_point(h, i):
    """PublicKey(pair) for the point of every private key: accepted; its negation too; shifted by the field size: rejected."""
    PK = h.bf.PublicKey
    s = h.int('secret', 1, N - 1)
    x, y = h.point(s)
    pair = [(x, y), (x, P - y), (x + P, y), (x, y + P)][i]
    k, e = h.attempt(PK, pair)
    if i < 2:
        h.check(e is None, 'points are accepted')
    else:
        h.check(isinstance(e, PK.InvalidPair), 'out of the field')


@unit('C07', cases=[dict(lo=lo) for lo in (0, 8, 16)])
def pubkey_other_curve(h, lo):
    """PublicKey(pair) and from_bytes: points of the curves y^2 = x^3 + b for b other than 7 (0..23, -7) are refused; the two smallest x of each."""
    PK = h.bf.PublicKey
    b = h.choose('b', [b for b in list(range(lo, lo + 8)) + [P - 7] if b != 7])
    found = []
    for x in range(1, 40):
        a = (x * x * x + b) % P
        y = pow(a, (P + 1) // 4, P)
        if y * y % P == a and y:
            found.append((x, y))
    x, y = h.choose('p', found[:2])
    y = h.choose('y', [y, P - y])
    k, e = h.attempt(PK, (x, y))
    h.check(isinstance(e, PK.InvalidPair), 'not on the curve')
    k, e = h.attempt(PK.from_bytes, b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big'))
    h.check(isinstance(e, PK.Error), 'not on the curve')


@unit('C07')
def pubkey_bad_hex(h):
    """PublicKey.from_hex: any text of 0..4 characters."""
    PK = h.bf.PublicKey
    n = h.choose('n', range(0, 5))
    s = h.text('s', n, lo=0, hi=255)
    k, e = h.attempt(PK.from_hex, s)
    h.check(isinstance(e, PK.InvalidHex) or isinstance(e, PK.InvalidBinary), 'rejected')


# --- C08 derivation of addresses

@unit('C08', cases=[dict(c=c) for c in (True, False)])
def address_of_key(h, c):
    """Address of every private key, both compressions, both networks."""
    A = h.bf.Address
    net = h.choose('net', nets(h))
    s = h.int('secret', 1, N - 1)
    k = h.bf.PrivateKey(s, net, c)
    pub = k.to_public_key()
    want = h.hash('ripemd160', h.hash('sha256', pub.to_bytes()))
    for a in (k.to_address(), pub.to_address(), A.from_public_key(pub)):
        h.check(a.phash == want, 'RIPEMD160 of SHA256 of the SEC form')
        h.check(a.network is net and a.type is A.Type.PublicKey, 'network and type')


@unit('C08', cases=[dict(n=n) for n in (0, 1, 2, 75, 76)], more=[dict(n=n) for n in (255, 256, 600)])
def address_of_script(h, n):
    """Address.from_script / Script.to_hash: every script of one push of 0,1,2,75,76 bytes and an opcode (also: up to 600), and the empty script."""
    A = h.bf.Address
    d = h.bytes('d', n)
    op = h.int('op', 97, 255)
    ins = [h.bf.Opcode(op)] + ([d] if n else [])
    sc = h.bf.Script.compile(ins if not h.choose('empty', [False, True]) else [])
    net = h.choose('net', nets(h))
    a = A.from_script(sc, net)
    want = h.hash('ripemd160', h.hash('sha256', sc.to_bytes()))
    h.check(a.phash == want, 'hash of the serialized script')
    h.check(sc.to_hash() == want, 'same as the script hash')
    h.check(a.network is net and a.type is A.Type.Script, 'network and type')
    h.check(A.from_script(sc).network is nets(h)[0], 'default network')


@unit('C08', cases=[dict(n=n) for n in (0, 1, 5, 33)])
def hash_functions(h, n):
    """sha256, sha1, ripemd160, hash160 of the two encoding modules: every byte string of 0,1,5,33 bytes."""
    E = h.mods['bitforge.encoding']
    U = h.mods['bitforge.utils.encoding']
    b = h.bytes('b', n)
    h.check(E.sha256(b) == h.hash('sha256', b), 'sha256')
    h.check(E.sha1(b) == h.hash('sha1', b), 'sha1')
    h.check(E.ripemd160(b) == h.hash('ripemd160', b), 'ripemd160')
    w = h.hash('ripemd160', h.hash('sha256', b))
    h.check(E.hash160(b) == w and U.hash160(b) == w, 'hash160')
    h.check(U.double_sha256(b) == h.hash('sha256', h.hash('sha256', b)), 'double sha256')


# --- C43 signatures of private keys

@unit('C43')
def sign_valid(h):
    """PrivateKey.sign: every secret and every 32-byte digest: valid under the public key, low S, fresh nonce."""
    s = h.int('secret', 1, N - 1)
    d = h.bytes('digest', 32)
    k = h.bf.PrivateKey(s)
    sig = k.sign(d)
    h.check(isinstance(sig, bytes), 'bytes')
    h.check(h.sig_valid(s, sig, d), 'verifies under the public key of this secret')
    h.check(h.sig_low_s(sig), 'low S')
    h.check(h.sig_random_nonce(sig), 'nonce is not fixed by the caller')
    h.check(k.verify(sig, d) is True, 'accepted by verify')


@unit('C43')
def verify_other(h):
    """PrivateKey.verify: signatures by another secret, or of another digest, are refused (for the signature scheme's ideal functionality)."""
    s = h.int('secret', 1, N - 1)
    t = h.int('other', 1, N - 1)
    d = h.bytes('digest', 32)
    f = h.bytes('digest2', 32)
    h.assume(s != t)
    h.assume(s + t != N)
    h.assume(d != f)
    sig = h.bf.PrivateKey(s).sign(d)
    h.check(h.bf.PrivateKey(t).verify(sig, d) is False, 'another key')
    h.check(h.bf.PrivateKey(s).verify(sig, f) is False, 'another digest')
