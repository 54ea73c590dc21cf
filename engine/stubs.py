"""Models of what the library calls outside itself.

Each is exact on concrete arguments; on symbolic ones it is the contract
stated next to it.  The list ends up in the evidence as assumptions.
"""
import binascii as _binascii
import hashlib as _hashlib
import hmac as _hmac
import os as _os
import random as _random
import secrets as _secrets
import struct as _struct
import sys as _sys
import types
import urllib.parse as _up

from . import core, seq, hooks
from .core import SymInt, SymBool, SymFloat, Unsupported, Infeasible, apply_uf, mkbool, f_and, f_or, fof
from .seq import SBytes, SBytearray, SStr, Opaque, mk_bytes, mk_str, blist, slist, is_bytes_like

ASSUME = {
    'hash': 'hash functions and HMAC are deterministic functions of their input (uninterpreted; equal inputs give equal '
            'outputs), so nothing proved depends on their values or on collision resistance',
    'rng': 'SystemRandom, os.urandom and secrets may return any value of their documented range',
    'ecdsa': 'the external ecdsa package: signing returns some DER signature bound to (secret, digest); verification '
             'accepts exactly the signatures so produced for the same key and digest',
    'url': 'urllib.parse on ASCII text follows its documented splitting and percent-encoding; str(float) is inverted by float()',
}


def note(k):
    if core.S is not None:
        core.S.notes.add(ASSUME[k])


def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


def passthrough(real, **kw):
    m = types.ModuleType(real.__name__)
    m.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith('__')})
    m.__dict__.update(kw)
    return m


# --- hashes

def bytes_arg(x):
    if isinstance(x, (str, SStr)):
        raise TypeError('Strings must be encoded before hashing')
    if not is_bytes_like(x):
        raise TypeError('object supporting the buffer API required')
    return list(blist(x))


class Hash(object):
    def __init__(self, name, data=()):
        h = _hashlib.new(name)
        self.name = name
        self.digest_size = h.digest_size
        self.block_size = h.block_size
        self.d = list(data)

    def update(self, x):
        self.d.extend(bytes_arg(x))

    def digest(self):
        if any(not isinstance(x, int) for x in self.d):
            note('hash')
        return mk_bytes(apply_uf(self.name, [self.d], self.digest_size,
                                 lambda b, n=self.name: _hashlib.new(n, b).digest()))

    def hexdigest(self):
        return hooks.BYTES(self.digest()).hex()

    def copy(self):
        return Hash(self.name, self.d)


def hash_fn(name):
    def f(data=b'', **kw):
        return Hash(name, bytes_arg(data))
    f.__name__ = f.hash_name = name
    return f


def hash_new(name, data=b'', **kw):
    _hashlib.new(name)      # ValueError on unknown names
    return Hash(name.lower(), bytes_arg(data))


class Hmac(object):
    def __init__(self, key, msg=None, digestmod=None):
        if digestmod is None or digestmod == '':
            raise TypeError("Missing required argument 'digestmod'.")
        n = digestmod if isinstance(digestmod, str) else getattr(digestmod, 'hash_name', None)
        if n is None and callable(digestmod):
            n = digestmod().name
        self.n = n
        if not is_bytes_like(key):
            raise TypeError('key: expected bytes or bytearray, but got %r' % type(key).__name__)
        self.key = list(blist(key))
        self.d = bytes_arg(msg) if msg is not None else []
        self.digest_size = _hashlib.new(n).digest_size
        self.name = 'hmac-' + n

    def update(self, x):
        self.d.extend(bytes_arg(x))

    def digest(self):
        if any(not isinstance(x, int) for x in self.d + self.key):
            note('hash')
        S = core.S
        lim = getattr(S, 'hmac_limit', None)
        if lim is not None:
            S.hmac_count = getattr(S, 'hmac_count', 0) + 1
            if S.hmac_count > lim:
                S.truncated = True
                raise Infeasible()
        return mk_bytes(apply_uf('hmac_' + self.n, [self.key, self.d], self.digest_size,
                                 lambda k, b, n=self.n: _hmac.new(k, b, n).digest()))

    def hexdigest(self):
        return self.digest().hex()

    def copy(self):
        r = Hmac(mk_bytes(self.key), mk_bytes(self.d), self.n)
        return r


def hmac_new(key, msg=None, digestmod=None):
    return Hmac(key, msg, digestmod)


# --- binascii

def hexlify(data, *a):
    if a:
        raise Unsupported('hexlify(sep)')
    if isinstance(data, (str, SStr)):
        raise TypeError("a bytes-like object is required, not 'str'")
    if not is_bytes_like(data):
        return _binascii.hexlify(data)
    return mk_bytes(seq.hex_chars(blist(data)))


def unhexlify(s):
    if isinstance(s, (str, bytes)):
        return _binascii.unhexlify(s)
    if isinstance(s, (SBytes, SBytearray, SStr)):
        e = s.e
        if isinstance(s, SStr):
            s._opaque()
            if not mkbool(f_and([fof(c <= 127) for c in e])):
                raise ValueError('string argument should contain only ASCII characters')
        if len(e) % 2:
            raise _binascii.Error('Odd-length string')
        r = seq.unhex(e)
        if r is None:
            raise _binascii.Error('Non-hexadecimal digit found')
        return r
    return _binascii.unhexlify(s)


# --- randomness

def fresh_int(kind, lo, hi):
    note('rng')
    S = core.S
    n = len(S.rng)
    if isinstance(lo, SymInt) or isinstance(hi, SymInt):
        raise Unsupported('symbolic range')
    if lo > hi:
        raise ValueError('empty range for randrange() (%d, %d, %d)' % (lo, hi + 1, hi - lo + 1))
    a = S.new('var', None, lo, hi, name='rng%d' % n)
    v = core.var_of(a) if lo < hi else lo
    S.rng.append((kind, v))
    S.rng_sizes.append(hi - lo + 1)
    return v


def fresh_bytes(kind, n):
    note('rng')
    S = core.S
    out = []
    for i in range(n):
        a = S.new('var', None, 0, 255, name='rng%d_%d' % (len(S.rng), i))
        out.append(core.var_of(a))
    b = mk_bytes(out)
    S.rng.append((kind, b))
    S.rng_sizes.append(256 ** n)
    return b


class SysRandom(object):
    kind = 'system'

    def __init__(self, *a):
        pass

    def randint(self, a, b):
        return fresh_int(self.kind, a, b)

    def randrange(self, a, b=None, step=1):
        if step != 1:
            raise Unsupported('randrange step')
        if b is None:
            a, b = 0, a
        return fresh_int(self.kind, a, b - 1)

    def getrandbits(self, n):
        return fresh_int(self.kind, 0, (1 << n) - 1)

    def randbytes(self, n):
        return fresh_bytes(self.kind, n)

    def _randbelow(self, n):
        return fresh_int(self.kind, 0, n - 1)

    def seed(self, *a):
        pass

    def random(self):
        raise Unsupported('random()')

    def choice(self, s):
        raise Unsupported('choice()')


class PseudoRandom(SysRandom):
    kind = 'pseudo'


# --- struct

def struct_parse(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = '@'
    if fmt and fmt[0] in '@=<>!':
        order, fmt = fmt[0], fmt[1:]
    out, n = [], ''
    for c in fmt:
        if c.isdigit():
            n += c
            continue
        if c.isspace():
            continue
        k = int(n) if n else 1
        n = ''
        if c == 's':
            out.append(('s', k))
        else:
            out.extend([(c, _struct.calcsize('=' + c))] * k)
    return order, out


def struct_pack(fmt, *args):
    if not any(hooks.has_sym(a) for a in args):
        return _struct.pack(fmt, *args)
    order, items = struct_parse(fmt)
    if order == '@' and len(items) > 1:
        raise Unsupported('native struct alignment')
    bo = 'big' if order in '>!' else 'little'
    out, i = [], 0
    for c, n in items:
        if c == 'x':
            out.append(0)
            continue
        v = args[i]
        i += 1
        if c == 's':
            b = list(blist(v))[:n]
            out.extend(b + [0] * (n - len(b)))
        elif c == 'c':
            out.extend(blist(v))
        elif c in 'BHILQbhilqNn':
            try:
                out.extend(blist(core_int(v).to_bytes(n, bo, signed=c.islower())))
            except OverflowError:
                raise _struct.error('argument out of range')
        else:
            raise Unsupported('struct ' + c)
    return mk_bytes(out)


def core_int(v):
    return v if isinstance(v, SymInt) else int(v)


def struct_unpack(fmt, data):
    e = blist(data)
    if all(isinstance(x, int) for x in e):
        return _struct.unpack(fmt, bytes(e))
    if len(e) != _struct.calcsize(fmt):
        raise _struct.error('unpack requires a buffer of %d bytes' % _struct.calcsize(fmt))
    order, items = struct_parse(fmt)
    if order == '@' and len(items) > 1:
        raise Unsupported('native struct alignment')
    bo = 'big' if order in '>!' else 'little'
    out, i = [], 0
    for c, n in items:
        p = e[i:i + n]
        i += n
        if c == 'x':
            continue
        if c in 'sc':
            out.append(mk_bytes(p))
        elif c in 'BHILQbhilqNn':
            out.append(hooks.int_from_bytes(mk_bytes(p), bo, signed=c.islower()))
        else:
            raise Unsupported('struct ' + c)
    return tuple(out)


# --- the external ecdsa package

class BadSignatureError(Exception):
    pass


class BadDigestError(Exception):
    pass


class UnexpectedDER(Exception):
    pass


def marker(name):
    def f(*a, **k):
        raise Unsupported('ecdsa.util.' + name)
    f.__name__ = f.marker = name
    return f


class Sig(object):
    pass


class SigningKey(object):
    def __init__(self, _error=True):
        if _error:
            raise TypeError('Please use SigningKey.generate() to construct me')

    @classmethod
    def from_secret_exponent(cls, secexp, curve=None, hashfunc=None):
        k = cls(_error=False)
        k.secret = secexp
        if curve is not ECDSA.SECP256k1:
            k.curve = 'NIST192p' if curve is None else str(curve)
        else:
            k.curve = 'secp256k1'
        k.hash = hashfunc if hashfunc is not None else hash_fn('sha1')
        if not (1 <= secexp < FIELD_N):
            raise AssertionError()
        return k

    @classmethod
    def from_string(cls, string, curve=None, hashfunc=None):
        if len(string) != 32:
            raise AssertionError()
        return cls.from_secret_exponent(hooks.int_from_bytes(string), curve, hashfunc)

    def get_verifying_key(self):
        v = VerifyingKey(_error=False)
        v.secret, v.curve, v.hash = self.secret, self.curve, self.hash
        return v

    def _sign(self, digest, sigencode, k):
        note('ecdsa')
        if not is_bytes_like(digest):
            raise TypeError('digest must be bytes')
        if len(digest) > 32:
            raise BadDigestError('this curve is too short for your digest')
        enc = getattr(sigencode, 'marker', 'sigencode_string' if sigencode is None else None)
        if enc is None:
            raise Unsupported('custom signature encoding')
        S = core.S
        d = list(blist(digest))
        n = len(S.sigs)
        size = 64 if enc.startswith('sigencode_string') else 71
        e = []
        for i in range(size):
            a = S.new('var', None, 0, 255, name='sig%d_%d' % (n, i))
            e.append(core.var_of(a))
        if size == 71:
            # DER framing of two 32/33-byte integers
            e[0], e[1], e[2], e[3], e[4] = 0x30, 69, 2, 33, 0
            e[37], e[38] = 2, 32
        S.sigs.append(dict(secret=self.secret, digest=d, enc=enc, curve=self.curve, k=k, sig=e))
        return mk_bytes(e)

    def sign_digest(self, digest, entropy=None, sigencode=None, k=None):
        return self._sign(digest, sigencode, k)

    def sign_digest_deterministic(self, digest, hashfunc=None, sigencode=None, extra_entropy=b''):
        return self._sign(digest, sigencode, 'rfc6979')

    def sign(self, data, entropy=None, hashfunc=None, sigencode=None, k=None):
        return self._sign((hashfunc or self.hash)(data).digest(), sigencode, k)

    def sign_deterministic(self, data, hashfunc=None, sigencode=None, extra_entropy=b''):
        return self._sign((hashfunc or self.hash)(data).digest(), sigencode, 'rfc6979')

    def to_string(self):
        return self.secret.to_bytes(32, 'big') if isinstance(self.secret, SymInt) else int(self.secret).to_bytes(32, 'big')


class VerifyingKey(object):
    def __init__(self, _error=True):
        if _error:
            raise TypeError('Please use VerifyingKey.from_string() to construct me')

    def verify_digest(self, signature, digest, sigdecode=None):
        note('ecdsa')
        if len(digest) > 32:
            raise BadDigestError('this curve is too short for your digest')
        dec = getattr(sigdecode, 'marker', 'sigdecode_string' if sigdecode is None else None)
        if sig_ok(self.secret, self.curve, signature, digest, dec):
            return True
        raise BadSignatureError('Signature verification failed')

    def verify(self, signature, data, hashfunc=None, sigdecode=None):
        return self.verify_digest(signature, (hashfunc or self.hash)(data).digest(), sigdecode)


def sig_ok(secret, curve, signature, digest, dec='sigdecode_der'):
    """was this signature produced for this key and digest?"""
    e = list(blist(signature))
    d = list(blist(digest))
    want = {'sigdecode_der': 'der', 'sigdecode_string': 'string'}.get(dec)
    for s in core.S.sigs:
        kind = 'der' if 'der' in s['enc'] else 'string'
        if kind != want or s['curve'] != curve or len(s['sig']) != len(e) or len(s['digest']) != len(d):
            continue
        if seq.seq_eq(s['sig'], e) and seq.seq_eq(s['digest'], d) and s['secret'] == secret:
            return True
    return False


FIELD_N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141


class _Curve(object):
    name = 'SECP256k1'
    order = FIELD_N
    baselen = 32

    def __repr__(self):
        return 'SECP256k1'


ECDSA = mod('ecdsa', SigningKey=SigningKey, VerifyingKey=VerifyingKey, BadSignatureError=BadSignatureError,
            BadDigestError=BadDigestError, SECP256k1=_Curve())
ECDSA.util = mod('ecdsa.util', **{n: marker(n) for n in (
    'sigencode_der', 'sigencode_der_canonize', 'sigencode_string', 'sigencode_string_canonize', 'sigencode_strings',
    'sigdecode_der', 'sigdecode_string')})
ECDSA.der = mod('ecdsa.der', UnexpectedDER=UnexpectedDER)
ECDSA.keys = mod('ecdsa.keys', SigningKey=SigningKey, VerifyingKey=VerifyingKey, BadSignatureError=BadSignatureError,
                 BadDigestError=BadDigestError)
ECDSA.curves = mod('ecdsa.curves', SECP256k1=ECDSA.SECP256k1)
for _n in 'NIST192p NIST224p NIST256p NIST384p NIST521p'.split():
    setattr(ECDSA, _n, _n)


# --- urllib.parse

def is_sym_text(x):
    return isinstance(x, SStr)


class ParseResult(tuple):
    def __new__(cls, *a):
        return tuple.__new__(cls, a)
    scheme = property(lambda s: s[0])
    netloc = property(lambda s: s[1])
    path = property(lambda s: s[2])
    params = property(lambda s: s[3])
    query = property(lambda s: s[4])
    fragment = property(lambda s: s[5])


def find_in(e, chars):
    """index of the first element equal to one of chars, else -1"""
    for i, x in enumerate(e):
        if isinstance(x, Opaque):
            continue
        if isinstance(x, int):
            if chr(x) in chars:
                return i
            continue
        if mkbool(seq.in_table(x, dict.fromkeys(ord(c) for c in chars))):
            return i
    return -1


def urlparse(url, scheme='', allow_fragments=True):
    if not is_sym_text(url):
        return _up.urlparse(url, scheme, allow_fragments)
    note('url')
    e = list(url.e)
    for x in e:
        if isinstance(x, SymInt) and not mkbool(f_and([fof(x > 32), fof(x <= 126)])):
            raise Unsupported('URL with spaces, control or non-ASCII characters')
    e = slist(mk_str(e).lstrip(' \t\n\r')) if isinstance(mk_str(e), SStr) else e
    sch = ''
    i = find_in(e, ':')
    if i > 0:
        ok = True
        for j, x in enumerate(e[:i]):
            good = set(_up.scheme_chars) if j else set(_up.scheme_chars) - set('0123456789+-.')
            if isinstance(x, Opaque):
                raise Unsupported('opaque scheme')
            if isinstance(x, int):
                ok = chr(x) in good
            else:
                ok = bool(mkbool(seq.in_table(x, dict.fromkeys(ord(c) for c in good))))
            if not ok:
                break
        if ok:
            s = mk_str(e[:i])
            sch = s.lower()
            e = e[i + 1:]
    if not isinstance(sch, str):
        raise Unsupported('symbolic scheme')
    netloc = mk_str([])
    if len(e) >= 2 and find_in(e[:1], '/') == 0 and find_in(e[1:2], '/') == 0:
        j = find_in(e[2:], '/?#')
        j = len(e) if j < 0 else j + 2
        netloc, e = mk_str(e[2:j]), e[j:]
        a, b = find_in(slist(netloc), '[') >= 0, find_in(slist(netloc), ']') >= 0
        if a != b:
            raise ValueError('Invalid IPv6 URL')
        if a:
            raise Unsupported('bracketed host')
    frag = query = ''
    i = find_in(e, '#')
    if i >= 0:
        e, frag = e[:i], mk_str(e[i + 1:])
    i = find_in(e, '?')
    if i >= 0:
        e, query = e[:i], mk_str(e[i + 1:])
    params = ''
    if sch in _up.uses_params:
        if find_in(e, ';') >= 0:
            raise Unsupported('URL parameters')
    return ParseResult(sch, netloc, mk_str(e), params, query, frag)


def parse_qsl(qs, keep_blank_values=False, strict_parsing=False, **kw):
    if not is_sym_text(qs):
        return _up.parse_qsl(qs, keep_blank_values, strict_parsing, **kw)
    note('url')
    out = []
    for nv in qs.split('&'):
        if len(slist(nv)) == 0 and not strict_parsing:
            continue
        e = slist(nv)
        i = find_in(e, '=')
        if i < 0:
            if strict_parsing:
                raise ValueError('bad query field')
            if keep_blank_values:
                out.append((unquote_plus(e), ''))
            continue
        name, val = e[:i], e[i + 1:]
        if val or keep_blank_values:
            out.append((unquote_plus(name), unquote_plus(val)))
    return out


def unquote_plus(e):
    out, i, high = [], 0, -1
    while i < len(e):
        x = e[i]
        if isinstance(x, Opaque):
            out.append(x)
        elif find_in([x], '+') == 0:
            out.append(32)
        elif find_in([x], '%') == 0:
            pair = e[i + 1:i + 3]
            r = None
            if len(pair) == 2 and not any(isinstance(p, Opaque) for p in pair):
                r = seq.unhex(pair)
            if r is None:
                out.append(x)
            else:
                b = blist(r)[0]
                if b <= 127:
                    out.append(b)
                    i += 2
                elif high == i:
                    raise Unsupported('adjacent percent-encoded bytes above 127')
                else:
                    # one byte alone is not UTF-8
                    out.append(0xfffd)
                    i += 2
                    high = i + 1
        else:
            out.append(x)
        i += 1
    return mk_str(out)


SAFE = dict.fromkeys(ord(c) for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~')


def quote_plus(s, safe=''):
    if isinstance(s, (str, bytes)):
        return _up.quote_plus(s, safe)
    note('url')
    sf = dict(SAFE)
    sf.update(dict.fromkeys(ord(c) for c in safe))
    out = []
    up = {i: ord('0123456789ABCDEF'[i]) for i in range(16)}
    for x in slist(s):
        if isinstance(x, Opaque):
            if x.kind not in ('int', 'float') and not x.kind.startswith('fixed'):
                raise Unsupported('quoting opaque text')
            out.append(x)
        elif isinstance(x, int):
            out.extend(slist(_up.quote_plus(chr(x), safe)))
        elif mkbool(seq.in_table(x, sf)):
            out.append(x)
        elif x == 32:
            out.append(43)
        elif x <= 127:
            out.append(37)
            for n in (x >> 4, x & 15):
                out.append(core.table_lookup(n, up) if isinstance(n, SymInt) else up[n])
        else:
            raise Unsupported('quoting non-ASCII text')
    return mk_str(out)


def quote(s, safe='/'):
    if isinstance(s, (str, bytes)):
        return _up.quote(s, safe)
    r = []
    for x in slist(s):
        if isinstance(x, SymInt) and x == 32:
            r += slist('%20')
        else:
            r += slist(quote_plus(mk_str([x]), safe)) if not isinstance(x, int) else slist(_up.quote(chr(x), safe))
    return mk_str(r)


def urlencode(query, doseq=False, **kw):
    items = list(query.items()) if hasattr(query, 'items') else list(query)
    if not any(hooks.has_sym(x) for kv in items for x in kv):
        return _up.urlencode(query, doseq, **kw)
    parts = []
    for k, v in items:
        k = k if isinstance(k, (bytes,)) else hooks.conv_str(k)
        v = v if isinstance(v, (bytes,)) else hooks.conv_str(v)
        parts.append(hooks.cat([quote_plus(k), '=', quote_plus(v)]))
    out = []
    for i, p in enumerate(parts):
        if i:
            out.append('&')
        out.append(p)
    return hooks.cat(out)


# --- sys

class Modules(object):
    def __init__(self, loader):
        self.l = loader

    def __getitem__(self, k):
        return self.l.mods[k] if k in self.l.mods else _sys.modules[k]

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __contains__(self, k):
        return k in self.l.mods or k in _sys.modules


def modules(loader):
    m = {}
    m['hashlib'] = passthrough(_hashlib, new=hash_new, **{n: hash_fn(n) for n in ('sha256', 'sha1', 'sha512', 'md5', 'sha224', 'sha384')})
    m['hmac'] = passthrough(_hmac, new=hmac_new, HMAC=Hmac,
                            digest=lambda key, msg, digest: Hmac(key, msg, digest).digest(),
                            compare_digest=lambda a, b: a == b)
    m['binascii'] = passthrough(_binascii, hexlify=hexlify, unhexlify=unhexlify, b2a_hex=hexlify, a2b_hex=unhexlify)
    m['random'] = passthrough(_random, SystemRandom=SysRandom, Random=PseudoRandom, randint=PseudoRandom().randint,
                              randrange=PseudoRandom().randrange, getrandbits=PseudoRandom().getrandbits)
    m['secrets'] = passthrough(_secrets, randbelow=lambda n: fresh_int('system', 0, n - 1), SystemRandom=SysRandom,
                               token_bytes=lambda n=32: fresh_bytes('system', n),
                               randbits=lambda n: fresh_int('system', 0, (1 << n) - 1))
    m['os'] = passthrough(_os, urandom=lambda n: fresh_bytes('system', core.as_int(n)))
    m['struct'] = passthrough(_struct, pack=struct_pack, unpack=struct_unpack,
                              unpack_from=lambda f, b, offset=0: struct_unpack(f, b[offset:offset + _struct.calcsize(f)]))
    m['ecdsa'] = ECDSA
    for n in ('util', 'der', 'keys', 'curves'):
        m['ecdsa.' + n] = getattr(ECDSA, n)
    up = passthrough(_up, urlparse=urlparse, parse_qsl=parse_qsl, urlencode=urlencode, quote_plus=quote_plus, quote=quote,
                     unquote_plus=lambda s: unquote_plus(slist(s)) if is_sym_text(s) else _up.unquote_plus(s),
                     parse_qs=lambda *a, **k: _qs(parse_qsl(*a, **k)))
    m['urllib'] = mod('urllib', parse=up)
    m['urllib.parse'] = up
    m['sys'] = passthrough(_sys, modules=Modules(loader))
    return m


def _qs(pairs):
    d = {}
    for k, v in pairs:
        d.setdefault(k, []).append(v)
    return d
