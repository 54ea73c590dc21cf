"""Hierarchical deterministic keys (BIP 32)."""
from harness.api import unit
from harness.codec import be
from harness.keys import N, nets, payload, text_of

PRV = {'livenet': 0x0488ade4, 'testnet': 0x04358394}
PUB = {'livenet': 0x0488b21e, 'testnet': 0x043587cf}
M32 = 2 ** 32 - 1
H = 2 ** 31


def HDPriv(h):
    return h.mods['bitforge.hdprivkey'].HDPrivateKey


def HDPub(h):
    return h.mods['bitforge.hdpubkey'].HDPublicKey


def num(b):
    n = 0
    for x in b:
        n = n * 256 + x
    return n


def node(h, net=None, public=False, secret=None):
    """an extended key with symbolic fields, and those fields"""
    s = secret or h.int('secret', 1, N - 1)
    f = dict(chain=h.bytes('chain', 32), depth=h.int('depth', 0, 254), index=h.int('index', 0, M32), parent=h.int('parent', 0, M32))
    k = h.bf.PrivateKey(s, net)
    if public:
        return HDPub(h)(k.to_public_key(), f['chain'], f['depth'], f['index'], f['parent'], net), k, f
    return HDPriv(h)(k, f['chain'], f['depth'], f['index'], f['parent'], net), k, f


def fields(h, x, f, what):
    h.check(x.chain == f['chain'], what + ': chain code')
    h.check(x.depth == f['depth'] and x.index == f['index'] and x.parent == f['parent'], what + ': depth, index, parent')


def fingerprint(h, pub):
    return num(h.hash('ripemd160', h.hash('sha256', pub.to_bytes()))[:4])


# --- C33 serialization

@unit('C33', cases=[dict(net=n) for n in (0, 1)], cost=3)
def hd_private_to_string(h, net):
    """HDPrivateKey.to_string: every secret, chain code, depth, index, parent fingerprint, both networks: the BIP 32 layout."""
    net = nets(h)[net]
    x, k, f = node(h, net)
    t = x.to_string()
    want = be(PRV[net.name], 4) + bytes([f['depth']]) + be(f['parent'], 4) + be(f['index'], 4) + f['chain'] + b'\0' + be(k.secret, 32)
    h.check(payload(h, t) == want, 'layout')
    h.check(isinstance(t, str), 'text')


@unit('C33', cases=[dict(net=n) for n in (0, 1)], cost=3)
def hd_private_from_string(h, net):
    """HDPrivateKey.from_string of every well-formed text: fields are read back, and serialize to the same text."""
    net = nets(h)[net]
    s = h.int('secret', 1, N - 1)
    f = dict(chain=h.bytes('chain', 32), depth=h.int('depth', 0, 255), index=h.int('index', 0, M32), parent=h.int('parent', 0, M32))
    data = be(PRV[net.name], 4) + bytes([f['depth']]) + be(f['parent'], 4) + be(f['index'], 4) + f['chain'] + b'\0' + be(s, 32)
    x = HDPriv(h).from_string(text_of(h, data))
    fields(h, x, f, 'read')
    h.check(x.privkey.secret == s and x.to_private_key().secret == s, 'secret')
    h.check(x.network is net and x.privkey.network is net, 'network')
    h.check(x.privkey.compressed is True, 'compressed')
    h.check(payload(h, x.to_string()) == data, 'round trip')


@unit('C33', cases=[dict(net=n) for n in (0, 1)], cost=3)
def hd_public_strings(h, net):
    """HDPublicKey.to_string/from_string: the key of every secret, every chain code, depth, index, parent, both networks."""
    net = nets(h)[net]
    x, k, f = node(h, net, True)
    data = be(PUB[net.name], 4) + bytes([f['depth']]) + be(f['parent'], 4) + be(f['index'], 4) + f['chain'] + k.to_public_key().to_bytes()
    h.check(payload(h, x.to_string()) == data, 'layout')
    y = HDPub(h).from_string(text_of(h, data))
    fields(h, y, f, 'read')
    h.check(y.pubkey.pair == x.pubkey.pair and y.to_public_key().pair == x.pubkey.pair, 'key')
    h.check(y.network is net and y.pubkey.network is net and y.pubkey.compressed is True, 'network')


@unit('C33')
def hd_bad_version(h):
    """Both from_string: every other version prefix is refused; private and public versions are not interchangeable."""
    v = h.int('version', 0, M32)
    tail = b'\x01' + b'\0' * 8 + b'\x22' * 32
    a, e = h.attempt(HDPriv(h).from_string, text_of(h, be(v, 4) + tail + b'\0' + be(7, 32)))
    h.check((e is None) == (v == PRV['livenet'] or v == PRV['testnet']), 'private versions')
    if e is not None:
        h.check(isinstance(e, h.mods['bitforge.networks'].UnknownNetwork), 'library error')
    pub = h.bf.PrivateKey(7).to_public_key().to_bytes()
    b, e = h.attempt(HDPub(h).from_string, text_of(h, be(v, 4) + tail + pub))
    h.check((e is None) == (v == PUB['livenet'] or v == PUB['testnet']), 'public versions')


@unit('C33')
def hd_bad_secret(h):
    """HDPrivateKey.from_string: secrets of 0 or beyond the group order are refused, and so is any byte but zero before the secret: any key of 33 bytes."""
    k = h.bytes('key', 33)
    x, e = h.attempt(HDPriv(h).from_string, text_of(h, be(PRV['livenet'], 4) + b'\x01' + b'\0' * 8 + b'\x22' * 32 + k))
    s = num(k[1:])
    if k[0] == 0 and 1 <= s < N:
        h.check(e is None and x.privkey.secret == s, 'accepted')
    else:
        h.check(e is not None, 'refused')


@unit('C33', cases=[dict(first=f) for f in (0, 1, 4, 5, 6, 7, 255)])
def hd_bad_public(h, first):
    """HDPublicKey.from_string: keys that do not start with 2 or 3 are refused: any other 32 bytes."""
    x, e = h.attempt(HDPub(h).from_string, text_of(h, be(PUB['livenet'], 4) + b'\x01' + b'\0' * 8 + b'\x22' * 32 + bytes([first]) + h.bytes('key', 32)))
    h.check(e is not None, 'refused')


@unit('C33', cases=[dict(n=n) for n in (0, 4, 45, 46, 77, 79, 82, 110)])
def hd_bad_length(h, n):
    """Both from_string: texts that carry 0, 4, 45, 46, 77, 79, 82, 110 bytes are refused: any last byte."""
    for v, c in ((PRV, HDPriv(h)), (PUB, HDPub(h))):
        data = be(v['livenet'], 4) + b'\x01' + b'\0' * 8 + b'\x22' * 32 + (b'\0' if v is PRV else b'') + h.bytes('b' + c.__name__, 1) + b'\x03' * 90
        x, e = h.attempt(c.from_string, text_of(h, data[:n]))
        h.check(isinstance(e, ValueError), 'refused')


@unit('C33')
def hd_field_range(h):
    """to_string: depths, indexes and fingerprints that do not fit are refused, not truncated."""
    d, i, p = h.int('depth', 0, 300), h.int('index', 0, 2 ** 33), h.int('parent', 0, 2 ** 33)
    x = HDPriv(h)(h.bf.PrivateKey(9), b'\x11' * 32, d, i, p)
    t, e = h.attempt(x.to_string)
    h.check((e is None) == (d <= 255 and i <= M32 and p <= M32), 'refused')


@unit('C33', cases=[dict(net=n) for n in (0, 1)])
def hd_public_of_private(h, net):
    """to_hd_public_key: any extended key: same chain code, depth, index, parent, fingerprint, network; the secret's public key."""
    net = nets(h)[net]
    x, k, f = node(h, net)
    y = x.to_hd_public_key()
    fields(h, y, f, 'public')
    h.check(y.pubkey == k.to_public_key() and x.to_public_key() == k.to_public_key(), 'key')
    h.check(y.network is net, 'network')
    h.check(x.fingerprint == fingerprint(h, k.to_public_key()), 'fingerprint')
    h.check(y.fingerprint == x.fingerprint, 'same fingerprint')


# --- C34 derivation

def child_of(h, x, secret, chain, data, parent_secret):
    """assumes the derivation is defined, which fails with negligible probability"""
    d = h.hmac('sha512', chain, data)
    il = num(d[:32])
    h.assume(il < N)
    return il, d[32:]


@unit('C34', cases=[dict(net=n, hard=x) for n in (0, 1) for x in (False, True)], cost=3)
def derive_private(h, net, hard):
    """HDPrivateKey.derive: any extended key, every normal or hardened index: BIP 32's CKDpriv."""
    net = nets(h)[net]
    x, k, f = node(h, net)
    i = h.int('child', H, M32) if hard else h.int('child', 0, H - 1)
    data = (b'\0' + be(k.secret, 32) if hard else k.to_public_key().to_bytes()) + be(i, 4)
    il, ir = child_of(h, x, k.secret, f['chain'], data, k.secret)
    h.assume((il + k.secret) % N != 0)
    c = x.derive(i)
    h.check(c.privkey.secret == (il + k.secret) % N, 'secret')
    h.check(c.chain == ir, 'chain code')
    h.check(c.depth == f['depth'] + 1 and c.index == i, 'depth and index')
    h.check(c.parent == fingerprint(h, k.to_public_key()), 'parent fingerprint')
    h.check(c.network is net and c.privkey.network is net and c.privkey.compressed is True, 'network')
    h.check(x.chain == f['chain'] and x.depth == f['depth'] and x.privkey.secret == k.secret, 'the parent is untouched')


@unit('C34')
def derive_hardened_flag(h):
    """derive(i, hardened=True) is derive(2^31 + i), and leaves indexes that are hardened already alone: every index."""
    x, k, f = node(h, nets(h)[0])
    i = h.int('child', 0, M32)
    w = i if i >= H else i + H
    il, ir = child_of(h, x, k.secret, f['chain'], b'\0' + be(k.secret, 32) + be(w, 4), k.secret)
    h.assume((il + k.secret) % N != 0)
    c = x.derive(i, True)
    h.check(c.index == w and c.chain == ir and c.privkey.secret == (il + k.secret) % N, 'hardened')


@unit('C34')
def derive_index_range(h):
    """derive: indexes outside 0..2^32-1 are refused by both kinds of key, hardened or not; public keys refuse every hardened index."""
    i = h.int('child', -2 ** 33, 2 ** 33)
    hard = h.choose('hard', [True, False])
    x = HDPriv(h)(h.bf.PrivateKey(7), b'\x22' * 32)
    y = x.to_hd_public_key()
    if i < 0 or i > M32:
        for z in (x, y):
            c, e = h.attempt(z.derive, i, hard)
            h.check(e is not None, 'no such index')
    elif i >= H or hard:
        c, e = h.attempt(y.derive, i, hard)
        h.check(isinstance(e, ValueError), 'public keys have no hardened children')


@unit('C34', cases=[dict(net=n) for n in (0, 1)], cost=3)
def derive_public(h, net):
    """HDPublicKey.derive: any extended key, every normal index: the public key of what the private key derives, with the same chain code, depth, index, parent."""
    net = nets(h)[net]
    x, k, f = node(h, net)
    i = h.int('child', 0, H - 1)
    il, ir = child_of(h, x, k.secret, f['chain'], k.to_public_key().to_bytes() + be(i, 4), k.secret)
    h.assume((il + k.secret) % N != 0)
    a = x.derive(i)
    b = x.to_hd_public_key().derive(i)
    h.check(b.pubkey.pair == h.point((il + k.secret) % N), 'CKDpub')
    h.check(a.to_hd_public_key().pubkey.pair == b.pubkey.pair, 'the public key of the private child')
    h.check(b.chain == ir and a.chain == ir, 'chain code')
    h.check(b.depth == f['depth'] + 1 and b.index == i and b.parent == x.fingerprint, 'depth, index and parent')
    h.check(b.network is net and b.pubkey.network is net and b.pubkey.compressed is True, 'network')


@unit('C34', cases=[dict(n=n) for n in (32, 33, 64)], more=[dict(n=n) for n in (128, 129)])
def from_seed(h, n):
    """HDPrivateKey.from_seed: any seed of 32, 33, 64 bytes: BIP 32's master key."""
    s = h.bytes('seed', n)
    d = h.hmac('sha512', b'Bitcoin seed', s)
    il = num(d[:32])
    h.assume(1 <= il < N)
    x = HDPriv(h).from_seed(s)
    h.check(x.privkey.secret == il and x.chain == d[32:], 'master key')
    h.check(x.depth == 0 and x.index == 0 and x.parent == 0, 'root')
    h.check(x.network is nets(h)[0], 'network')


@unit('C34', cases=[dict(n=n) for n in (0, 1, 16, 31)])
def short_seed(h, n):
    """HDPrivateKey.from_seed: any seed under 32 bytes is refused."""
    x, e = h.attempt(HDPriv(h).from_seed, h.bytes('seed', n))
    h.check(isinstance(e, ValueError), 'too short')


@unit('C34', rng=True)
def random_seed(h):
    """HDPrivateKey.from_seed without a seed: the master key of 32 bytes of the system's randomness."""
    x, e = h.attempt(HDPriv(h).from_seed)
    v = h.rng_values()
    h.check(len(v) == 1 and len(v[0]) >= 32, 'one draw of 32 bytes or more')
    h.check(h.rng_kinds() == ['system'], 'from the system')
    d = h.hmac('sha512', b'Bitcoin seed', v[0])
    il = num(d[:32])
    if e is None:
        h.check(x.privkey.secret == il and x.chain == d[32:], 'of that seed')
    else:
        h.check(il == 0 or il >= N, 'only if the key is out of range')
