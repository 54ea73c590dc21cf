"""DER strictness, amounts, payment URIs, errors and value objects, networks, legacy codec helpers."""
from harness.api import unit
from harness.codec import be, checksum, B58
from harness.keys import N, P, nets, payload, text_of, WIF, PKH, SH

HEX = '0123456789abcdef'


def num(b):
    x = 0
    for c in b:
        x = x * 256 + c
    return x


# --- C38 strict DER

def strict_int(b):
    """a DER integer that is not negative and has no padding it does not need"""
    if len(b) == 0:
        return False
    if b[0] >= 128:
        return False
    if len(b) > 1 and b[0] == 0 and b[1] < 128:
        return False
    return True


def strict_der(sig):
    """BIP 66: 30 len 02 lenR R 02 lenS S hashtype, of 9 to 73 bytes"""
    n = len(sig)
    if n < 9 or n > 73:
        return False
    if sig[0] != 0x30 or sig[1] != n - 3 or sig[2] != 2:
        return False
    lr = sig[3]
    for k in range(0, n - 6):
        if lr == k:
            if sig[4 + k] != 2 or sig[5 + k] != n - 7 - k:
                return False
            return strict_int(sig[4:4 + k]) and strict_int(sig[6 + k:n - 1])
    return False


@unit('C38', cases=[dict(n=n) for n in list(range(0, 16)) + [70, 71, 72, 73, 74, 75, 128]],
      more=[dict(n=n) for n in list(range(16, 70)) + [76, 140, 255, 256, 258, 300]], cost=6)
def strict_encoding(h, n):
    """validate_signature: every byte string of 0..15, 70..75 and 128 bytes (also: all of 0..76, 140, 255..300), against BIP 66."""
    V = h.mods['bitforge.signature'].validate_signature
    sig = h.bytes('sig', n)
    v, e = h.attempt(V, sig)
    h.check(e is None, 'no exception')
    want = strict_der(sig)
    if want:
        h.reach('strict')
    h.check(bool(v) == bool(want), 'accepted exactly when strict')


@unit('C38', cases=[dict(lr=a, ls=b) for a in (1, 2, 32, 33) for b in (1, 31, 32, 33)],
      more=[dict(lr=a, ls=b) for a in (3, 8, 16, 30, 31) for b in (1, 2, 3, 16, 30, 32, 33)])
def encodings_of_pairs(h, lr, ls):
    """validate_signature: the canonical encoding of every pair of positive integers of the given byte lengths (with sign byte), any hash type;
    the same bytes given as bytearray; and with any one byte too many or missing at the end."""
    V = h.mods['bitforge.signature'].validate_signature
    r = h.bytes('r', lr)
    s = h.bytes('s', ls)
    t = h.bytes('t', 1)
    h.assume(strict_int(r))
    h.assume(strict_int(s))
    body = b'\x02' + bytes([lr]) + r + b'\x02' + bytes([ls]) + s
    sig = b'\x30' + bytes([len(body)]) + body + t
    h.check(V(sig) is True, 'accepted')
    h.check(V(bytearray(sig)) is True, 'accepted as a bytearray')
    h.check(V(sig[:-1]) is False, 'cut short')
    h.check(V(sig + t) is False, 'one more')


# --- C39 amounts

MAXSAT = 21 * 10 ** 14
FACT = {'satoshis': 1, 'bits': 100, 'mbtc': 10 ** 5, 'btc': 10 ** 8}


@unit('C39', cases=[dict(u=u) for u in ('satoshis', 'bits', 'mbtc', 'btc')])
def unit_roundtrip(h, u):
    """Unit(satoshis=n) and back through each unit: every integer -21e14..21e14."""
    U = h.bf.Unit
    n = h.int('n', -MAXSAT, MAXSAT)
    a = U(satoshis=n)
    h.check(a.satoshis == n and isinstance(a.satoshis, int), 'satoshis are kept exactly')
    x = getattr(a, u)
    b = U(**{u: x})
    h.check(b.satoshis == n, 'round trip')
    f = FACT[u]
    for m, v in ((-MAXSAT, None), (MAXSAT, None)):
        c = U(satoshis=m)
        h.check(getattr(c, u) == m / f, 'largest amounts')
    # the accessor is n/f up to the rounding of one double
    d = h.frac(x) * f - n
    h.check(h.exact_le(d, 0.25) and h.exact_le(-0.25, d), 'conversion')


@unit('C39', cases=[dict(u=u) for u in ('bits', 'mbtc', 'btc')])
def unit_nearest(h, u):
    """Unit(unit=x): every double of 0..21e6 BTC in each unit gives the nearest number of satoshis."""
    U = h.bf.Unit
    f = FACT[u]
    x = h.float('x', 0, MAXSAT // f)
    a = U(**{u: x})
    d = h.frac(x) * f - a.satoshis
    # half a satoshi, plus the rounding of one product (at most half a satoshi in 21e14)
    h.check(h.exact_le(d, 0.76) and h.exact_le(-0.76, d), 'nearest')


@unit('C39', cases=[dict(u=u) for u in ('bits', 'mbtc', 'btc')])
def unit_nearest_small(h, u):
    """Unit(unit=x): every double of 0..1000 BTC in each unit: within 0.5001 satoshi."""
    U = h.bf.Unit
    f = FACT[u]
    x = h.float('x', 0, 1000 * 10 ** 8 // f)
    a = U(**{u: x})
    d = h.frac(x) * f - a.satoshis
    h.check(h.exact_le(d, 0.5001) and h.exact_le(-0.5001, d), 'nearest')


@unit('C39', cases=[dict(u=u) for u in ('bits', 'mbtc', 'btc')])
def unit_whole(h, u):
    """Unit(unit=k): every whole number of each unit up to 21e6 BTC is exact."""
    U = h.bf.Unit
    f = FACT[u]
    k = h.int('k', -(MAXSAT // f), MAXSAT // f)
    h.check(U(**{u: k}).satoshis == k * f, 'exact')
    h.check(getattr(U(**{u: k}), u) == k, 'and back')


@unit('C39')
def unit_arguments(h):
    """Unit: no amount is refused, zero in any unit is an amount; the first unit given is used alone."""
    U = h.bf.Unit
    v, e = h.attempt(U)
    h.check(isinstance(e, ValueError), 'no arguments')
    u = h.choose('u', ['satoshis', 'bits', 'mbtc', 'btc'])
    z = h.choose('zero', [0, 0.0])
    a, e = h.attempt(U, **{u: z})
    h.check(e is None and a.satoshis == 0 and a.btc == 0 and a.bits == 0 and a.mbtc == 0, 'zero')
    h.check(U(5).satoshis == 5, 'positional')


@unit('C39', cases=[dict(rate=r) for r in (1, 0.5, 250, 432.1, 10 ** 5, 0.0001)])
def unit_rates(h, rate):
    """Unit.at_rate / from_fiat: every amount of 0..1e6 BTC in satoshis, rates 0.0001..1e5."""
    U = h.bf.Unit
    n = h.int('n', 0, 10 ** 14)
    a = U(satoshis=n)
    v = a.at_rate(rate)
    d = h.frac(v) * 10 ** 8 - n * h.frac(rate)
    h.check(h.exact_le(d, rate) and h.exact_le(-rate, d), 'price of the amount')
    b = U.from_fiat(v, rate)
    h.check(b.satoshis == n, 'and back')


@unit('C39', cases=[dict(rate=r) for r in (1, 3, 250, 432.1)])
def unit_from_fiat(h, rate):
    """Unit.from_fiat: every double of 0..1e4, rates 1..432.1: the nearest number of satoshis."""
    x = h.float('x', 0, 10 ** 4)
    a = h.bf.Unit.from_fiat(x, rate)
    d = h.frac(x) * 10 ** 8 - a.satoshis * h.frac(rate)
    lim = 0.51 * rate
    h.check(h.exact_le(d, lim) and h.exact_le(-lim, d), 'nearest')


# --- C40 URIs

def an_address(h):
    """an address with any hash; network and type fixed by choice"""
    net = h.choose('net', nets(h))
    A = h.bf.Address
    t = h.choose('type', [A.Type.PublicKey, A.Type.Script])
    return A(h.bytes('hash', 20), net, t)


ADDR = '1DP69gMMvSuYhbnxsi4EJEFufUAbDrEQfj'


@unit('C40', cases=[dict(f=f, n=n) for f in ('message', 'label', 'r', 'extra') for n in (1, 2, 3)],
      more=[dict(f=f, n=n) for f in ('message', 'label', 'r', 'extra') for n in (4, 5, 6)], cost=4)
def text_fields(h, f, n):
    """URI: any printable ASCII text of 1..3 characters (also: to 6) as message, label, r or an extra parameter survives the text form."""
    t = h.text('t', n)
    key = 'other' if f == 'extra' else f
    u = h.bf.URI({'address': ADDR, key: t})
    s = u.to_uri()
    q, e = h.attempt(h.bf.URI, s)
    h.check(e is None, 'parsed')
    h.check((q.extras[key] if f == 'extra' else getattr(q, f)) == t, 'same text')
    h.check(q.address == u.address, 'same address')
    h.check(q.amount is None, 'no amount appears')
    h.check(len(q.extras) == (1 if f == 'extra' else 0), 'no other parameter appears')
    h.check(h.bf.URI.is_valid(s), 'valid')
    h.check(q.to_uri() == s, 'stable')


@unit('C40', cases=[dict(n=1), dict(n=2)], more=[dict(n=3)], cost=4)
def extra_names(h, n):
    """URI: any printable ASCII parameter name of 1..2 characters (also: 3) survives the text form."""
    k = h.text('k', n)
    h.assume(k != 'r')
    u = h.bf.URI({'address': ADDR, k: 'v'})
    q, e = h.attempt(h.bf.URI, u.to_uri())
    h.check(e is None, 'parsed')
    h.check(len(q.extras) == 1, 'one parameter')
    for kk in q.extras:
        h.check(kk == k, 'same name')
        h.check(q.extras[kk] == 'v', 'same value')


@unit('C40', cost=4)
def amounts(h):
    """URI: every amount of 0..21e14 satoshis survives the text form, as a plain decimal."""
    n = h.int('n', 0, MAXSAT)
    u = h.bf.URI({'address': ADDR, 'amount': n})
    h.check(u.amount.satoshis == n, 'kept')
    q, e = h.attempt(h.bf.URI, u.to_uri())
    h.check(e is None, 'parsed')
    h.check(q.amount is not None and q.amount.satoshis == n, 'same amount')
    h.check(q.address == u.address and q.extras == {}, 'nothing else')
    h.check(h.plain_decimal(h.bf.URI.parse(u.to_uri())['amount']), 'no exponent')


@unit('C40', cost=3)
def all_fields(h):
    """URI: address, amount, message, label, r and an extra parameter together, each present or not; one-character texts."""
    d = {'address': ADDR}
    for f in ('message', 'label', 'r', 'x'):
        if h.choose('has_' + f, [False, True]):
            d[f] = h.text(f, 1)
    if h.choose('has_amount', [False, True]):
        d['amount'] = h.int('amount', 0, MAXSAT)
    u = h.bf.URI(d)
    q, e = h.attempt(h.bf.URI, u.to_uri())
    h.check(e is None, 'parsed')
    h.check(q.address == u.address, 'address')
    for f in ('message', 'label', 'r'):
        if f in d:
            h.check(getattr(q, f) == d[f], f)
        else:
            h.check(getattr(q, f, None) is None, 'absent stays absent: ' + f)
    h.check(q.extras == ({'x': d['x']} if 'x' in d else {}), 'extras')
    if 'amount' in d:
        h.check(q.amount.satoshis == d['amount'], 'amount')
    else:
        h.check(q.amount is None, 'no amount')


@unit('C40', cost=6)
def any_address(h):
    """URI: addresses with any hash, both networks and types, with and without //."""
    a = an_address(h)
    u = h.bf.URI({'address': a.to_string()})
    h.check(u.address == a, 'the address given')
    t = u.to_uri()
    h.check(t[:8] == 'bitcoin:' and h.bf.Address.from_string(t[8:]) == a, 'text form')
    slashes = h.choose('slashes', ['', '//'])
    q = h.bf.URI('bitcoin:' + slashes + a.to_string())
    h.check(q.address == a, 'the address written')
    h.check(h.bf.URI.is_valid('bitcoin:' + slashes + a.to_string()), 'valid')


@unit('C40', cases=[dict(n=n) for n in (0, 1, 2, 3)], more=[dict(n=n) for n in (4, 5)], cost=4)
def bad_text(h, n):
    """URI: any printable ASCII text of 0..3 characters (4 and 5 without brackets) after "bitcoin:" is refused, and is_valid agrees without raising."""
    t = h.text('t', n, lo=33, hi=126)
    for c in t if n > 3 else '':
        h.assume(c != '[')
        h.assume(c != ']')
    t = 'bitcoin:' + t
    v, e = h.attempt(h.bf.URI, t)
    b, e2 = h.attempt(h.bf.URI.is_valid, t)
    h.check(e is not None, 'no address')
    h.check(e2 is None, 'is_valid does not raise')
    h.check(b is False, 'and says no')


@unit('C40')
def bad_arguments(h):
    """URI: amounts that are not numbers, arguments of other kinds, missing addresses."""
    U = h.bf.URI
    t = 'bitcoin:' + ADDR + '?amount=' + h.choose('amount', ['bad', 'inf', 'nan', '1e400', '1..2', '-inf', '0x10', '1,5'])
    v, e = h.attempt(U, t)
    h.check(e is not None, 'refused')
    b, e = h.attempt(U.is_valid, t)
    h.check(e is None and b is False, 'not valid')
    bad = h.choose('bad', [None, 5, [], {}, {'amount': 1}, ()])
    v, e = h.attempt(U, bad)
    h.check(isinstance(e, ValueError), 'refused')
    b, e = h.attempt(U.is_valid, bad)
    h.check(e is None and b is False, 'not valid')


@unit('C40')
def tampered_address(h):
    """URI: an address text with any one character replaced by any other base58 character (every position) is refused, apart from checksum collisions."""
    i = h.choose('i', list(range(len(ADDR))))
    c = h.choose('c', list(B58))
    h.assume(c != ADDR[i])
    t = 'bitcoin:' + ADDR[:i] + c + ADDR[i + 1:]
    v, e = h.attempt(h.bf.URI, t)
    h.check(isinstance(e, h.bf.Address.Error), 'refused')
    h.check(h.bf.URI.is_valid(t) is False, 'not valid')


# --- C44 utils.encoding helpers

def ue(h):
    return h.mods['bitforge.utils.encoding']


@unit('C44', cases=[dict(c=c, net=n) for c in (True, False) for n in (0, 1)], cost=8)
def helper_wif(h, c, net):
    """secret_exponent_to_wif and back: every secret, both networks and compressions; agrees with PrivateKey; foreign prefixes are refused."""
    U = ue(h)
    net = nets(h)[net]
    s = h.int('s', 1, N - 1)
    pre = bytes([WIF[net.name]])
    other = b'\xef' if pre == b'\x80' else b'\x80'
    w = U.secret_exponent_to_wif(s, c, pre)
    h.check(payload(h, w) == pre + be(s, 32) + (b'\x01' if c else b''), 'WIF')
    h.check(U.wif_to_tuple_of_prefix_secret_exponent_compressed(w) == (pre, s, c), 'and back')
    h.check(U.wif_to_tuple_of_secret_exponent_compressed(w, [pre]) == (s, c), 'with its prefix')
    h.check(U.wif_to_secret_exponent(w, [pre]) == s, 'secret')
    h.check(U.is_valid_wif(w, [pre]) is True, 'valid')
    h.check(U.is_valid_wif(w, [other]) is False, 'of another network')
    v, e = h.attempt(U.wif_to_secret_exponent, w, [other])
    h.check(isinstance(e, U.EncodingError), 'refused for another network')


@unit('C44', cases=[dict(n=n) for n in (0, 1, 21, 32, 33, 34, 35, 40)], cost=5)
def helper_wif_payloads(h, n):
    """is_valid_wif / wif_to_secret_exponent: every payload of 0,1,21,32..35,40 bytes with a right checksum; accepted exactly when it is a WIF."""
    U = ue(h)
    d = h.bytes('d', n)
    t = text_of(h, d)
    v, e = h.attempt(U.wif_to_tuple_of_secret_exponent_compressed, t)
    ok = n in (33, 34) and d[0] == 0x80 and (n == 33 or d[33] == 1)
    h.check(bool(U.is_valid_wif(t)) == bool(ok), 'valid exactly then')
    if ok:
        s = 0
        for x in d[1:33]:
            s = s * 256 + x
        h.check(e is None and v == (s, n == 34), 'decoded')
    else:
        h.check(isinstance(e, U.EncodingError), 'refused')


@unit('C44', cases=[dict(pre=p) for p in (0, 0x6f)], cost=4)
def helper_address(h, pre):
    """hash160_sec_to_bitcoin_address and back: every 20-byte hash, both networks; agrees with Address."""
    U = ue(h)
    pre = bytes([pre])
    other = b'\x6f' if pre == b'\0' else b'\0'
    x = h.bytes('x', 20)
    t = U.hash160_sec_to_bitcoin_address(x, pre)
    h.check(payload(h, t) == pre + x, 'text')
    h.check(U.bitcoin_address_to_hash160_sec_with_prefix(t) == (x, pre), 'and back')
    h.check(U.bitcoin_address_to_hash160_sec(t, pre) == x, 'hash')
    h.check(U.is_valid_bitcoin_address(t, pre) is True, 'valid')
    h.check(U.is_valid_bitcoin_address(t, other) is False, 'of the other network')
    h.check(U.is_valid_bitcoin_address(t, b'\0\x6f') is True, 'of either network')
    v, e = h.attempt(U.bitcoin_address_to_hash160_sec, t, other)
    h.check(isinstance(e, U.EncodingError), 'refused for the other network')
    h.check(h.bf.Address.from_string(t).phash == x, 'Address agrees')


@unit('C44', cases=[dict(n=n) for n in (0, 1, 20, 21, 22, 34)], cost=3)
def helper_address_payloads(h, n):
    """bitcoin_address_to_hash160_sec_with_prefix: every payload of 0,1,20,21,22,34 bytes with a right checksum."""
    U = ue(h)
    d = h.bytes('d', n)
    t = text_of(h, d)
    v, e = h.attempt(U.bitcoin_address_to_hash160_sec_with_prefix, t)
    ok = n == 21 and (d[0] == 0 or d[0] == 0x6f)
    if ok:
        h.check(e is None and v == (d[1:], d[:1]), 'decoded')
    else:
        h.check(isinstance(e, U.EncodingError), 'refused')
    h.check(bool(U.is_valid_bitcoin_address(t)) == bool(ok and d[0] == 0), 'valid exactly then')
    h.check(U.is_hashed_base58_valid(t) is True, 'the checksum is right')


@unit('C44', cases=[dict(c=c) for c in (True, False)], cost=5)
def helper_public_pair(h, c):
    """public_pair_to_sec, sec_to_public_pair, public_pair_to_hash160_sec, public_pair_to_bitcoin_address: the public key of every secret; agrees with PublicKey."""
    U = ue(h)
    s = h.int('s', 1, N - 1)
    x, y = h.point(s)
    sec = U.public_pair_to_sec((x, y), c)
    want = bytes([2 + y % 2]) + be(x, 32) if c else b'\x04' + be(x, 32) + be(y, 32)
    h.check(sec == want, 'SEC')
    h.check(U.is_sec_compressed(sec) is c, 'compression')
    h.check(tuple(U.sec_to_public_pair(sec)) == (x, y), 'and back')
    hh = h.hash('ripemd160', h.hash('sha256', want))
    h.check(U.public_pair_to_hash160_sec((x, y), c) == hh, 'hash')


@unit('C44', cases=[dict(n=n) for n in (0, 1, 2, 32, 33, 34, 64, 65, 66)], cost=3)
def helper_sec(h, n):
    """sec_to_public_pair: every byte string of 0,1,2,32..34,64..66 bytes: accepted exactly when it is the SEC form of a point of the curve."""
    U = ue(h)
    b = h.bytes('b', n)
    v, e = h.attempt(U.sec_to_public_pair, b)
    p = b[0] if n else 0
    if n == 33 and (p == 2 or p == 3):
        x = num(b[1:])
        if x < P and h.is_square(x * x * x + 7):
            h.check(e is None, 'accepted')
            h.check(v[0] == x and 0 <= v[1] < P and (v[1] & 1) == (p & 1), 'the point')
            h.check(h.congruent(v[1] * v[1], x * x * x + 7, P), 'on the curve')
        else:
            h.check(isinstance(e, U.EncodingError), 'no such point')
    elif n == 65 and p == 4:
        x, y = num(b[1:33]), num(b[33:])
        on = x < P and y < P and (y * y - x * x * x - 7) % P == 0
        if e is None:
            h.check(on, 'on the curve')
            h.check(tuple(v) == (x, y), 'the point')
        else:
            h.check(isinstance(e, U.EncodingError) and not on, 'only others are refused')
    else:
        h.check(isinstance(e, U.EncodingError), 'not a SEC form')


@unit('C44')
def helper_sec_real(h):
    """sec_to_public_pair: x with and without points of the curve (1..40), pairs off the curve."""
    U = ue(h)
    x = h.choose('x', list(range(1, 41)) + [P, P + 1, P - 1])
    a = (x * x * x + 7) % P
    y = pow(a, (P + 1) // 4, P)
    on = y * y % P == a and x < P
    for c in (2, 3):
        v, e = h.attempt(U.sec_to_public_pair, bytes([c]) + x.to_bytes(32, 'big'))
        if on:
            h.check(e is None and tuple(v) == (x, y if y & 1 == c & 1 else P - y), 'point')
        else:
            h.check(isinstance(e, U.EncodingError), 'no point')
    for z in (y, P - y, y + 1, 0, 1):
        v, e = h.attempt(U.sec_to_public_pair, b'\x04' + x.to_bytes(32, 'big') + z.to_bytes(32, 'big'))
        if on and z in (y, P - y):
            h.check(e is None and tuple(v) == (x, z), 'point')
        else:
            h.check(isinstance(e, U.EncodingError), 'off the curve')


@unit('C44', cost=5)
def helper_defaults(h):
    """The helpers without optional arguments: compressed, live network: every secret and hash."""
    U = ue(h)
    s = h.int('s', 1, N - 1)
    x, y = h.point(s)
    sec = bytes([2 + y % 2]) + be(x, 32)
    h.check(U.public_pair_to_sec((x, y)) == sec, 'compressed SEC')
    hh = h.hash('ripemd160', h.hash('sha256', sec))
    h.check(U.public_pair_to_hash160_sec((x, y)) == hh, 'its hash')
    a = U.public_pair_to_bitcoin_address((x, y))
    h.check(a == U.hash160_sec_to_bitcoin_address(hh, b'\0'), 'its address')
    h.check(a == U.hash160_sec_to_bitcoin_address(hh), 'on the live network')


@unit('C44', cost=5)
def helper_defaults_wif(h):
    """WIF and address helpers without optional arguments: compressed, live network: every secret and hash."""
    U = ue(h)
    s = h.int('s', 1, N - 1)
    w = U.secret_exponent_to_wif(s)
    h.check(payload(h, w) == b'\x80' + be(s, 32) + b'\x01', 'compressed, live')
    h.check(U.wif_to_secret_exponent(w) == s and U.is_valid_wif(w) is True, 'and back')
    h.check(U.wif_to_tuple_of_secret_exponent_compressed(w) == (s, True), 'with its form')
    x = h.bytes('x', 20)
    a = U.hash160_sec_to_bitcoin_address(x)
    h.check(U.bitcoin_address_to_hash160_sec(a) == x and U.is_valid_bitcoin_address(a) is True, 'address')
    b = U.hash160_sec_to_bitcoin_address(x, b'\x6f')
    v, e = h.attempt(U.bitcoin_address_to_hash160_sec, b)
    h.check(isinstance(e, U.EncodingError) and U.is_valid_bitcoin_address(b) is False, 'not on the live network')


@unit('C44', cases=[dict(c=c, pre=p) for c in (True, False) for p in (0, 0x6f)], cost=5)
def helper_public_address(h, c, pre):
    """public_pair_to_bitcoin_address: the public key of every secret, both compressions and networks."""
    U = ue(h)
    s = h.int('s', 1, N - 1)
    x, y = h.point(s)
    want = bytes([2 + y % 2]) + be(x, 32) if c else b'\x04' + be(x, 32) + be(y, 32)
    hh = h.hash('ripemd160', h.hash('sha256', want))
    pre = bytes([pre])
    a = U.public_pair_to_bitcoin_address((x, y), c, pre)
    h.check(a == U.hash160_sec_to_bitcoin_address(hh, pre), 'the address of its hash')


@unit('C44', cases=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=n) for n in (4, 5, 6)])
def helper_base58(h, n):
    """b2a_base58/a2b_base58 without checksum: every byte string of 1..3 bytes (thorough: 6) and back; every text of 1..3 characters that uses the alphabet decodes and encodes to itself, any other is refused."""
    U = ue(h)
    d = h.bytes('d', n)
    h.check(U.a2b_base58(U.b2a_base58(d)) == d, 'lossless')
    t = h.text('t', n, lo=0, hi=0x2fff)
    good = True
    for ch in t:
        if ch not in B58:
            good = False
    v, e = h.attempt(U.a2b_base58, t)
    if good:
        h.check(e is None and U.b2a_base58(v) == t, 'single text')
    else:
        h.check(isinstance(e, U.EncodingError), 'refused')


@unit('C44', cases=[dict(k=k) for k in (0, 1, 2)])
def helper_bytes32(h, k):
    """to_bytes_32 / from_bytes_32: every integer of 0..2^256-1 and back; too large or negative ones are refused."""
    U = ue(h)
    n = h.int('n', [0, 2 ** 256, -2 ** 40][k], [2 ** 256 - 1, 2 ** 264, -1][k])
    v, e = h.attempt(U.to_bytes_32, n)
    if k == 0:
        h.check(e is None and v == be(n, 32), '32 bytes, big endian')
        h.check(U.from_bytes_32(v) == n, 'and back')
    else:
        h.check(isinstance(e, (ValueError, OverflowError)), 'refused')


# --- C42 networks

FIELDS = {
    'livenet': dict(pubkeyhash=0, wif_prefix=0x80, scripthash=5, hd_public_key=0x0488b21e, hd_private_key=0x0488ade4, magic=0xf9beb4d9, port=8333),
    'testnet': dict(pubkeyhash=111, wif_prefix=239, scripthash=196, hd_public_key=0x043587cf, hd_private_key=0x04358394, magic=0x0b110907, port=18333),
}


@unit('C42')
def network_tables(h):
    """networks: the protocol constants of both networks; every finite case."""
    M = h.mods['bitforge.networks']
    name = h.choose('name', ['livenet', 'testnet'])
    net = getattr(M, name)
    h.check(net.name == name, 'name')
    for k in sorted(FIELDS[name]):
        h.check(getattr(net, k) == FIELDS[name][k], 'constant ' + k)
    h.check(M.default is M.livenet, 'default')
    h.check(M.find(name) is net and M.find(net) is net and M.find(name, 'name', False) is net, 'found')
    h.check(M.find(net, 'port') is net, 'networks are returned as they are')
    h.check(hash(net) == hash(M.find(name)), 'hashable')
    v, e = h.attempt(setattr, net, 'port', 1)
    h.check(e is not None and net.port == FIELDS[name]['port'], 'immutable')


@unit('C42', cases=[dict(a=a) for a in ('pubkeyhash', 'wif_prefix', 'scripthash', 'hd_public_key', 'hd_private_key', 'magic', 'port')])
def network_by_number(h, a):
    """networks.find by each numeric attribute: every integer -2..2^33."""
    M = h.mods['bitforge.networks']
    v = h.int('v', -2, 2 ** 33)
    raises = h.choose('raises', [True, False])
    r, e = h.attempt(M.find, v, a, raises)
    for name in ('livenet', 'testnet'):
        if v == FIELDS[name][a]:
            h.check(e is None and r is getattr(M, name), 'the network of that number')
            return
    if raises:
        h.check(isinstance(e, M.UnknownNetwork), 'unknown numbers are refused')
        h.check(e.key == a and e.value == v, 'saying which')
        h.check(isinstance(e, h.mods['bitforge.errors'].BitforgeError), 'library error')
    else:
        h.check(e is None and r is None, 'or there is none')


@unit('C42', cases=[dict(n=n) for n in (0, 1, 6, 7, 8)])
def network_by_name(h, n):
    """networks.find by name: every text of 0,1,6,7,8 characters."""
    M = h.mods['bitforge.networks']
    t = h.text('t', n, lo=1, hi=0xfff)
    raises = h.choose('raises', [True, False])
    r, e = h.attempt(M.find, t, 'name', raises)
    for name in ('livenet', 'testnet'):
        if t == name:
            h.check(e is None and r is getattr(M, name), 'the network of that name')
            return
    if raises:
        h.check(isinstance(e, M.UnknownNetwork), 'unknown names are refused')
    else:
        h.check(e is None and r is None, 'or there is none')


@unit('C42')
def network_bad_attribute(h):
    """networks.find by attributes networks don't have, and by values of other kinds."""
    M = h.mods['bitforge.networks']
    a = h.choose('a', ['nothing', 'Name', '', 'prefix'])
    v = h.choose('v', [0, 'livenet', b'livenet', None, 1.5, (), 0x80])
    r, e = h.attempt(M.find, v, a)
    h.check(isinstance(e, M.UnknownNetwork), 'refused')
    r, e = h.attempt(M.find, v, a, False)
    h.check(r is None and e is None, 'none')
    if not (isinstance(v, str) and v == 'livenet'):
        r, e = h.attempt(M.find, v)
        h.check(isinstance(e, M.UnknownNetwork), 'no network of that name')


# --- C41 errors and value objects

def error_classes(h):
    """every error class of the library"""
    B = h.mods['bitforge.errors'].BitforgeError
    out = []
    seen = []

    def walk(ns, depth):
        for k in sorted(ns):
            c = ns[k]
            if isinstance(c, type) and not any(c is s for s in seen):
                m = getattr(c, '__module__', '')
                if not m.startswith('bitforge'):
                    continue
                seen.append(c)
                if issubclass(c, B):
                    out.append(c)
                if depth < 3:
                    walk(dict(vars(c)), depth + 1)
    for name in sorted(h.mods):
        if name == 'bitforge' or name.startswith('bitforge.'):
            walk(dict(vars(h.mods[name])), 0)
    return sorted(out, key=lambda c: c.__module__ + c.__qualname__)


def bare(c):
    return c.__doc__ is None


@unit('C41', cases=[dict(kind=k) for k in ('string', 'bytes', 'number', 'keyvalue', 'object', 'plain')])
def error_messages(h, kind):
    """every error class of the library, built with any text or bytes of two characters, any integer or object of its kind: str() works and is the documented message with the values filled in."""
    E = h.mods['bitforge.errors']
    base = {'string': E.StringError, 'bytes': E.StringError, 'number': E.NumberError, 'keyvalue': E.KeyValueError, 'object': E.ObjectError}.get(kind)
    cs = [c for c in error_classes(h) if not bare(c)]
    if base is not None:
        cs = [c for c in cs if issubclass(c, base)]
    else:
        cs = [c for c in cs if not issubclass(c, (E.StringError, E.NumberError, E.KeyValueError, E.ObjectError))]
    h.check(len(cs) > 0, 'there are such errors')
    if kind == 'string':
        t = h.text('t', 2, lo=0, hi=0xfff)
        a, want = (t,), dict(string=repr(t), length=2)
    elif kind == 'bytes':
        t = h.bytes('t', 2)
        a, want = (t,), dict(string=repr(t), length=2)
    elif kind == 'number':
        n = h.int('n', -2 ** 70, 2 ** 70)
        a, want = (n,), dict(number=n)
    elif kind == 'keyvalue':
        n = h.int('n', -2 ** 70, 2 ** 70)
        a, want = ('some', n), dict(key='some', value=n)
    elif kind == 'object':
        o = h.bf.Opcode(h.int('n', 0, 255))
        a, want = (o,), dict(object=o)
    for c in cs:
        if kind == 'plain':
            k = c.prepare.__code__.co_argcount - 1
            a = (7, 8, 9)[:k]
        cause = ValueError('x')
        x, e = h.attempt(c, *a, cause=cause)
        h.check(e is None, 'it can be built: ' + c.__name__)
        h.check(x.cause is cause, 'it keeps its cause')
        h.check(c(*a).cause is None, 'no cause by default')
        s, e = h.attempt(str, x)
        h.check(e is None and isinstance(s, str), 'it can be printed: ' + c.__name__)
        if kind != 'plain':
            h.check(s == c.__doc__.format(**want), 'its message: ' + c.__name__)
        else:
            h.check('{' not in s, 'filled in: ' + c.__name__)
        h.check(isinstance(x, E.BitforgeError) and isinstance(x, Exception), 'library error')


@unit('C41', cases=[dict(what=w) for w in ('PrivateKey', 'Address', 'Output', 'Input', 'Instruction', 'Instruction75')], cost=3)
def value_equality(h, what):
    """PrivateKey, Address, Instruction, Input, Output: two with any fields are equal exactly when all fields are, have the same hash then, and are not changed by assignment."""
    net = nets(h)
    if what == 'PrivateKey':
        def mk(i):
            f = (h.int('s%d' % i, 1, N - 1), h.choose('net%d' % i, net), h.choose('c%d' % i, [True, False]))
            return h.bf.PrivateKey(*f), f, 'secret'
    elif what == 'Address':
        T = h.bf.Address.Type

        def mk(i):
            f = (h.bytes('p%d' % i, 20), h.choose('net%d' % i, net), h.choose('t%d' % i, [T.PublicKey, T.Script]))
            return h.bf.Address(*f), f, 'phash'
    elif what.startswith('Instruction'):
        n = int(what[11:] or 3)

        def mk(i):
            f = (h.choose('o%d' % i, [n, 76]), h.bytes('d%d' % i, n))
            return h.bf.Instruction(h.bf.Opcode(f[0]), f[1]), f, 'data'
    elif what == 'Output':
        def mk(i):
            f = (h.int('a%d' % i, 0, 2 ** 64 - 1), h.bytes('b%d' % i, 2))
            S = h.bf.Script
            return h.bf.Output(f[0], S.from_bytes(b'\x02' + f[1])), f, 'amount'
    else:
        def mk(i):
            f = (h.int('x%d' % i, 0, 2 ** 32 - 1), h.int('q%d' % i, 0, 2 ** 32 - 1))
            return h.bf.Input('aa' * 32, f[0], h.bf.Script(), f[1]), f, 'txo_index'
    a, fa, name = mk(0)
    b, fb, name = mk(1)
    same = fa == fb
    h.check(bool(a == b) == bool(same), 'equal exactly when all fields are')
    h.check(bool(a != b) == (not same), 'different otherwise')
    for o in (None, 7, 'x', b'x', h.bf.Opcode(118)):
        v, e = h.attempt(lambda: (bool(a == o), bool(a != o), bool(o == a)))
        h.check(e is None and v == (False, True, False), 'never equal to something else')
    if same:
        h.check(hash(a) == hash(b), 'same hash')
    v, e = h.attempt(setattr, a, name, getattr(b, name))
    h.check(e is not None, 'assignment is refused')
    h.check(a == mk_again(h, what, a), 'unchanged')


def mk_again(h, what, a):
    return type(a)(*tuple(a)) if not what.startswith('Instruction') else h.bf.Instruction(a.opcode, a.data)


@unit('C41', cases=[dict(c=c) for c in (True, False)], cost=3)
def value_texts(h, c):
    """repr of PrivateKey and PublicKey: every secret, both networks and compressions: shows the value, never raises."""
    net = h.choose('net', nets(h))
    k = h.bf.PrivateKey(h.int('s', 1, N - 1), net, c)
    h.check(repr(k) == '<PrivateKey: ' + k.to_hex() + ', network: ' + net.name + '>', 'private key')
    p = k.to_public_key()
    h.check(repr(p) == '<PublicKey: ' + p.to_hex() + ', network: ' + net.name + '>', 'public key')


@unit('C41', cases=[dict(net=n, t=t) for n in (0, 1) for t in ('PublicKey', 'Script')], cost=3)
def address_text(h, net, t):
    """repr of Address: every hash, both networks and types."""
    net = nets(h)[net]
    a = h.bf.Address(h.bytes('p', 20), net, h.bf.Address.Type[t])
    h.check(repr(a) == '<Address: ' + a.to_string() + ', type: ' + t + ', network: ' + net.name + '>', 'address')


@unit('C41')
def other_texts(h):
    """repr/str of Opcode, Instruction, Script, Unit: every opcode number, any 3 bytes of data, any amount; never raises."""
    n = h.int('n', 0, 255)
    for x in (h.bf.Opcode(n), h.bf.Instruction(h.bf.Opcode(3), h.bytes('d', 3)), h.bf.Script.from_bytes(b'\x01\x02\x76'),
              h.bf.Unit(satoshis=h.int('a', 0, MAXSAT))):
        s, e = h.attempt(repr, x)
        h.check(e is None and isinstance(s, str), 'repr')
        s, e = h.attempt(str, x)
        h.check(e is None and isinstance(s, str), 'str')
