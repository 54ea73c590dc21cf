"""Replacement builtins and the hooks the source transformation inserts."""
import builtins as B
import collections
import math
import numbers
import sys

from fractions import Fraction

from . import core, seq
from .core import SymInt, SymBool, SymFloat, Control, Unsupported, Budget, mkbool, f_and, f_or, f_not, fof
from .seq import SBytes, SBytearray, SStr, Opaque, mk_bytes, mk_str, blist, slist

numbers.Integral.register(SymInt)
numbers.Real.register(SymFloat)

SYM = (SymInt, SymBool, SymFloat, SBytes, SBytearray, SStr)


def has_sym(x, depth=3):
    if isinstance(x, SYM):
        return True
    if depth and isinstance(x, (tuple, list)):
        return any(has_sym(y, depth - 1) for y in x)
    return False


# --------------------------------------------------------------------------
# type proxies

def _proxy(name, real, syms, call, **attrs):
    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real) or isinstance(o, syms)

        def __subclasscheck__(cls, c):
            return c is cls or issubclass(c, real)

        def __call__(cls, *a, **k):
            return call(*a, **k)

        def __getattr__(cls, n):
            v = getattr(real, n)
            if callable(v) and n not in ('__name__',) and not n.startswith('__'):
                def m(self, *a, **k):
                    return sym_meth(self, n)(*a, **k)
                return m
            return v

        def __eq__(cls, o):
            return o is cls or o is real

        def __ne__(cls, o):
            return not (o is cls or o is real)

        def __hash__(cls):
            return hash(real)

        def __repr__(cls):
            return repr(real)

        def __or__(cls, o):
            return (cls, o)
    d = {k: staticmethod(v) for k, v in attrs.items()}
    d['_real'] = real
    return Meta(name, (object,), d)


def to_int(*a, **k):
    if not a:
        return 0
    x = a[0]
    if len(a) == 1 and not k:
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return core.b2i(x)
        if isinstance(x, SymFloat):
            return x.trunc()
        if isinstance(x, SStr):
            return parse_int(x, 10)
        if isinstance(x, SBytes) or isinstance(x, SBytearray):
            return parse_int(mk_str(x.e), 10)
        if hasattr(type(x), '__int__') and not isinstance(x, (int, float, str, bytes)):
            return x.__int__()
        return int(x)
    base = a[1] if len(a) > 1 else k.get('base', 10)
    if isinstance(x, SStr):
        return parse_int(x, base)
    if isinstance(x, (SBytes, SBytearray)):
        return parse_int(mk_str(x.e), base)
    return int(*a, **k)


def parse_int(s, base):
    e = s.e
    if len(e) == 1 and isinstance(e[0], Opaque):
        if e[0].kind == 'int' and base == 10:
            return e[0].value
        raise Unsupported('int() of opaque text')
    if any(isinstance(x, Opaque) for x in e):
        raise Unsupported('int() of opaque text')
    if base == 10:
        tab = {48 + i: i for i in range(10)}
    elif base == 16:
        tab = seq.UNHEX
    else:
        raise Unsupported('int(text, base)')
    if not e:
        raise ValueError('invalid literal for int() with base %d' % base)
    if mkbool(f_and([seq.in_table(c, tab) for c in e])):
        v = 0
        for c in e:
            v = v * base + (core.table_lookup(c, tab) if isinstance(c, SymInt) else tab[c])
        return v
    plain = mkbool(f_and([fof(c <= 127) for c in e]))
    odd = [43, 45, 95] + [w for w in seq.WS if w < 128] + ([88, 120] if base == 16 else [])
    if plain and not mkbool(f_or([seq.in_table(c, dict.fromkeys(odd)) for c in e])):
        raise ValueError('invalid literal for int() with base %d' % base)
    raise Unsupported('int() of signed or spaced text')


def int_from_bytes(bytes, byteorder='big', *, signed=False):
    e = list(blist(bytes)) if seq.is_bytes_like(bytes) else [seq.check_byte(x) for x in bytes]
    if byteorder == 'little':
        e = e[::-1]
    elif byteorder != 'big':
        raise ValueError("byteorder must be either 'little' or 'big'")
    v = 0
    for x in e:
        v = v * 256 + x
    if signed and e and e[0] >= 128:
        v = v - (1 << (8 * len(e)))
    return v


def to_float(x=0.0):
    if isinstance(x, (SymInt, SymBool, SymFloat)):
        return SymFloat.of(x) if not isinstance(x, SymFloat) else x
    if isinstance(x, SStr):
        if len(x.e) == 1 and isinstance(x.e[0], Opaque) and x.e[0].kind.startswith('fixed'):
            return core.rounded(x.e[0].value.t)
        if len(x.e) == 1 and isinstance(x.e[0], Opaque) and x.e[0].kind in ('float', 'int'):
            v = x.e[0].value
            return v if isinstance(v, (SymFloat, float)) else to_float(v)
        raise Unsupported('float() of symbolic text')
    return float(x)


def to_bytes(*a, **k):
    if k:
        a = a + tuple(k.values())
    return mk_bytes(seq.conv_bytes(a))


def fromhex(s):
    e = slist(s)
    r = seq.unhex(e)
    if r is None:
        if any(not isinstance(c, int) for c in e):
            if mkbool(f_or([fof(c == w) for c in e for w in (32, 9, 10, 11, 12, 13)])):
                raise Unsupported('bytes.fromhex with spaces')
            raise ValueError('non-hexadecimal number found in fromhex() arg')
        return bytes.fromhex(s)
    return r


class _BAMeta(type):
    def __instancecheck__(cls, o):
        if cls is ByteArray:
            return isinstance(o, (bytearray, SBytearray))
        return type.__instancecheck__(cls, o)

    def __repr__(cls):
        return "<class 'bytearray'>" if cls is ByteArray else type.__repr__(cls)


class ByteArray(SBytearray, metaclass=_BAMeta):
    fromhex = staticmethod(lambda s: ByteArray(fromhex(s)))


ByteArray.__name__ = 'bytearray'
seq.BYTEARRAY = ByteArray


def conv_str(x='', *a, **k):
    if a or k:
        return sym_meth(x, 'decode')(*a, **k)
    if isinstance(x, (str, SStr)):
        return x
    if isinstance(x, SymInt):
        return mk_str([Opaque('int', x)])
    if isinstance(x, SymFloat):
        return mk_str([Opaque('float', x)])
    if isinstance(x, SymBool):
        return 'True' if x else 'False'
    if isinstance(x, (SBytes, SBytearray)):
        return mk_repr(x)
    if isinstance(x, (tuple, list, dict)) and type(x).__str__ is object.__str__:
        return mk_repr(x)
    f = type(x).__str__
    if isinstance(x, BaseException) and f is BaseException.__str__:
        if len(x.args) == 1:
            return conv_str(x.args[0])
        return mk_repr(x.args) if x.args else ''
    if f is object.__str__:
        return mk_repr(x)
    return f(x)


def mk_repr(x):
    if isinstance(x, (int, float, str, bytes)) and not isinstance(x, SYM):
        return repr(x)
    if isinstance(x, SymInt):
        return mk_str([Opaque('int', x)])
    if isinstance(x, SymFloat):
        return mk_str([Opaque('float', x)])
    if isinstance(x, SymBool):
        return 'True' if x else 'False'
    if isinstance(x, (SBytes, SBytearray, SStr)):
        return mk_str([Opaque('repr', x)])
    t = type(x)
    if isinstance(x, tuple):
        for b in t.__mro__:
            r = b.__dict__.get('__repr__')
            if r is not None and hasattr(r, '__globals__') and '_sym_module' in r.__globals__:
                return r(x)
        parts = []
        if hasattr(t, '_fields'):
            parts.append(t.__name__ + '(')
            for i, (n, v) in enumerate(zip(t._fields, x)):
                parts.append((', ' if i else '') + n + '=')
                parts.append(mk_repr(v))
            parts.append(')')
        else:
            parts.append('(')
            for i, v in enumerate(x):
                parts.append(', ' if i else '')
                parts.append(mk_repr(v))
            parts.append(',)' if len(x) == 1 else ')')
        return cat(parts)
    if isinstance(x, list):
        parts = ['[']
        for i, v in enumerate(x):
            parts.append(', ' if i else '')
            parts.append(mk_repr(v))
        parts.append(']')
        return cat(parts)
    if isinstance(x, dict):
        parts = ['{']
        for i, (k, v) in enumerate(x.items()):
            parts += [', ' if i else '', mk_repr(k), ': ', mk_repr(v)]
        parts.append('}')
        return cat(parts)
    return t.__repr__(x)


def cat(parts):
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    out = []
    for p in parts:
        out.extend(slist(p))
    return mk_str(out)


def hexfmt(v, width, zero, upper=False):
    """%0<w>x of a symbolic non-negative integer"""
    lo, hi = core.bounds(v.t)
    if lo is None or lo < 0 or hi is None:
        raise Unsupported('hex of an unbounded integer')
    n = (hi.bit_length() + 3) // 4
    tab = {i: ord(('0123456789ABCDEF' if upper else '0123456789abcdef')[i]) for i in range(16)}
    if zero and width >= n:
        n = width
    else:
        k = n
        while k > 1 and k > (width if zero else 0):
            if v >= 16 ** (k - 1):
                break
            k -= 1
        n = k
    out = []
    for i in range(n - 1, -1, -1):
        d = (v >> (4 * i)) & 15
        out.append(core.table_lookup(d, tab) if isinstance(d, SymInt) else tab[d])
    if len(out) < width:
        out = [32] * (width - len(out)) + out
    return mk_str(out)


def fixed(v, prec):
    """'%.<prec>f' % v: the nearest decimal of that many places"""
    t = core.exact(v)
    n = core.SymFloat(core.p_scale(t, Fraction(10) ** prec)).round_exact()
    if isinstance(n, int):
        n = core.SymInt(core.p_const(n)) if n else None
    val = core.SymFloat(core.p_scale(core.exact(n if n is not None else 0), Fraction(1, 10 ** prec)))
    return mk_str([Opaque('fixed%d:0' % prec, val)])


def fmt_value(v, conv, flags, width, prec):
    """one printf-style conversion"""
    if conv in 'di':
        if isinstance(v, SymBool):
            v = core.b2i(v)
        if isinstance(v, SymFloat):
            v = v.trunc()
        if isinstance(v, SymInt):
            if width or flags:
                raise Unsupported('formatted decimal')
            return mk_str([Opaque('int', v)])
    elif conv in 'xX':
        if isinstance(v, SymBool):
            v = core.b2i(v)
        if isinstance(v, SymInt):
            return hexfmt(v, int(width or 0), '0' in flags, conv == 'X')
    elif conv in 'sr':
        s = conv_str(v) if conv == 's' else mk_repr(v)
        if isinstance(s, SStr):
            if width or prec:
                raise Unsupported('padded text')
            return s
        v, conv = s, 's'
    elif isinstance(v, SYM):
        if conv == 'c':
            return mk_str([v]) if isinstance(v, SymInt) else v
        if isinstance(v, (SymInt, SymFloat)) and conv in 'fF' and not flags and not width:
            return fixed(v, 6 if prec is None else int(prec))
        if isinstance(v, (SymInt, SymFloat)):
            return mk_str([Opaque('fmt:' + conv + flags + (width or '') + (prec or ''), v)])
        raise Unsupported('format %' + conv)
    return ('%' + flags + (width or '') + (('.' + prec) if prec is not None else '') + conv) % v


def sym_mod(a, b):
    """a % b"""
    if isinstance(a, str):
        return sym_printf(a, b)
    if isinstance(a, SStr):
        return sym_printf(a, b)
    if isinstance(a, (bytes, bytearray)) and has_sym(b):
        raise Unsupported('bytes formatting')
    return a % b


def sym_printf(fmt, args):
    if isinstance(fmt, SStr):
        raise Unsupported('symbolic format')
    if not isinstance(args, tuple):
        mapping = args
        args = (args,)
    else:
        mapping = None
    out = []
    i = n = 0
    L = len(fmt)
    while i < L:
        c = fmt[i]
        if c != '%':
            out.append(c)
            i += 1
            continue
        i += 1
        if i >= L:
            raise ValueError('incomplete format')
        key = None
        if fmt[i] == '(':
            j = fmt.index(')', i)
            key = fmt[i + 1:j]
            i = j + 1
        flags = ''
        while fmt[i] in '#0- +':
            flags += fmt[i]
            i += 1
        width = ''
        while fmt[i].isdigit():
            width += fmt[i]
            i += 1
        prec = None
        if fmt[i] == '.':
            i += 1
            prec = ''
            while fmt[i].isdigit():
                prec += fmt[i]
                i += 1
        conv = fmt[i]
        i += 1
        if conv == '%':
            out.append('%')
            continue
        if key is not None:
            v = mapping[key]
        else:
            if n >= len(args):
                raise TypeError('not enough arguments for format string')
            v = args[n]
            n += 1
        out.append(fmt_value(v, conv, flags, width, prec))
    if mapping is None and n < len(args):
        raise TypeError('not all arguments converted during string formatting')
    if mapping is not None and n < 1 and not isinstance(mapping, dict):
        raise TypeError('not all arguments converted during string formatting')
    return cat(out)


def fmt_spec(v, spec):
    """format(v, spec)"""
    if isinstance(v, SymBool):
        v = core.b2i(v) if spec else ('True' if v else 'False')
    if not isinstance(v, SYM):
        if type(v).__format__ is object.__format__ or not spec:
            if spec:
                raise TypeError('unsupported format string')
            return conv_str(v)
        return format(v, spec)
    if not spec:
        return conv_str(v)
    if isinstance(v, SymInt):
        s = spec
        conv = s[-1] if s[-1].isalpha() else 'd'
        body = s[:-1] if s[-1].isalpha() else s
        if conv in 'xX' and (body == '' or body.isdigit()):
            return hexfmt(v, int(body or 0), body.startswith('0'), conv == 'X')
        if conv == 'd' and body == '':
            return conv_str(v)
        return mk_str([Opaque('fmt:' + spec, v)])
    if isinstance(v, SymFloat) and spec[-1] in 'fF' and (spec[:-1] == '' or (spec[0] == '.' and spec[1:-1].isdigit())):
        return fixed(v, int(spec[1:-1]) if spec[:-1] else 6)
    if isinstance(v, SymFloat):
        return mk_str([Opaque('fmt:' + spec, v)])
    if isinstance(v, SStr):
        if spec == 's':
            return v
    raise Unsupported('format spec')


def sym_format(fmt, args, kwargs):
    """str.format"""
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        first, rest = __import__('_string').formatter_field_name_split(field)
        if first == '':
            first = auto
            auto += 1
        obj = args[first] if isinstance(first, int) else kwargs[first]
        for is_attr, k in rest:
            obj = getattr(obj, k) if is_attr else sym_getitem(obj, k)
        if conv == 'r':
            obj = mk_repr(obj)
        elif conv == 's':
            obj = conv_str(obj)
        if spec and '{' in spec:
            spec = sym_format(spec, args, kwargs)
        out.append(fmt_spec(obj, spec))
    return cat(out)


def sym_fstr(*parts):
    return cat([p if isinstance(p, (str, SStr)) else fmt_spec(*p) for p in parts])


def sym_conv(v, c):
    return mk_repr(v) if c == 'r' else conv_str(v) if c == 's' else v


# --------------------------------------------------------------------------
# functions

class HashVal(object):
    """hash() of a value with symbolic parts: equal for equal values, unknown otherwise"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        if isinstance(o, HashVal) and mkbool(fof(sym_eq(self.v, o.v))):
            return True
        raise Unsupported('hashes of different values')

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise Unsupported('hash of a hash')

    def _no(self, *a):
        raise Unsupported('arithmetic on a hash')
    __add__ = __radd__ = __mul__ = __rmul__ = __xor__ = __rxor__ = __mod__ = __int__ = __index__ = _no


def sym_eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(mkbool(fof(sym_eq(x, y))) for x, y in zip(a, b))
    if isinstance(a, HashVal) and isinstance(b, HashVal):
        return sym_eq(a.v, b.v)
    r = a == b
    return False if r is NotImplemented else r


def hash_parts(x):
    """what hash(x) depends on"""
    if isinstance(x, (SBytearray, list, dict, set)):
        raise TypeError("unhashable type: '%s'" % type(x).__name__)
    if isinstance(x, SYM):
        return x
    f = type(x).__hash__
    if f is None:
        raise TypeError("unhashable type: '%s'" % type(x).__name__)
    if getattr(f, '__code__', None) is not None:
        return f(x)
    if isinstance(x, tuple):
        return tuple(hash_parts(y) for y in x)
    return hash(x)


def deep_sym(v):
    return isinstance(v, (HashVal,) + tuple(SYM)) or (isinstance(v, tuple) and any(deep_sym(y) for y in v))


_hashing = [0]


def b_hash(x):
    if not _hashing[0] and sys._getframe(1).f_code.co_name == '__hash__':
        return hash(x)          # called by a real dict or set, which needs a number
    _hashing[0] += 1
    try:
        v = hash_parts(x)
    finally:
        _hashing[0] -= 1
    return HashVal(v) if deep_sym(v) else hash(x)


def b_ord(c):
    if isinstance(c, (str, bytes, bytearray)):
        return ord(c)
    e = c.e
    if len(e) != 1:
        raise TypeError('ord() expected a character, but string of length %d found' % len(e))
    if isinstance(e[0], Opaque):
        raise Unsupported('opaque text')
    return e[0]


def b_chr(x):
    if isinstance(x, SymInt):
        if not (0 <= x):
            raise ValueError('chr() arg not in range(0x110000)')
        if not (x <= 0x10ffff):
            raise ValueError('chr() arg not in range(0x110000)')
        return mk_str([x])
    return chr(x)


def b_pow(b, e, m=None):
    if any(isinstance(x, (SymInt, SymBool)) for x in (b, e, m)):
        return core.sym_pow(b, e, m)
    if isinstance(b, SymFloat) or isinstance(e, SymFloat):
        raise Unsupported('float power')
    return pow(b, e) if m is None else pow(b, e, m)


def b_round(x, n=None):
    if isinstance(x, (SymInt, SymFloat)):
        return x.__round__(n) if n is not None else x.__round__()
    return round(x) if n is None else round(x, n)


def b_hex(x):
    if isinstance(x, SymInt):
        if x < 0:
            raise Unsupported('hex of a negative integer')
        return '0x' + hexfmt(x, 0, False)
    return hex(x)


def b_bin(x):
    if isinstance(x, SymInt):
        x = core.concretize(x)
    return bin(x)


def b_format(v, spec=''):
    return fmt_spec(v, spec)


def b_divmod(a, b):
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        return core.div_mod(a, b)
    return divmod(a, b)


def b_min(*a, **k):
    return min(*a, **k)


def b_print(*a, **k):
    pass


def b_isinstance(o, c):
    return isinstance(o, c)


def b_getattr(o, n, *d):
    if isinstance(n, SStr):
        for name in sorted(dir(o)):
            if len(name) == len(n) and n == name:
                return getattr(o, name)
        if d:
            return d[0]
        raise AttributeError('no such attribute')
    return getattr(o, n, *d)


def b_setattr(o, n, v):
    if isinstance(n, SStr):
        e = slist(n)
        if any(isinstance(x, Opaque) for x in e):
            raise Unsupported('name of an attribute')
        n = ''.join(chr(x if isinstance(x, int) else core.concretize(x)) for x in e)
    return setattr(o, n, v)


class _TypeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, type)

    def __call__(cls, *a, **k):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, SymInt) or type(x) is int:
                return INT
            if isinstance(x, SymBool) or type(x) is bool:
                return BOOL
            if isinstance(x, SymFloat) or type(x) is float:
                return FLOAT
            if isinstance(x, SBytes) or type(x) is bytes:
                return BYTES
            if isinstance(x, SStr) or type(x) is str:
                return STR
            return type(x)
        return type(*a, **k)


class TypeProxy(metaclass=_TypeMeta):
    pass


def to_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return mkbool(f_not(core.f_eq(x.t)))
    return True if x else False


INT = _proxy('int', int, (SymInt, SymBool), to_int, from_bytes=int_from_bytes)
BOOL = _proxy('bool', bool, (SymBool,), to_bool)
FLOAT = _proxy('float', float, (SymFloat,), to_float)
BYTES = _proxy('bytes', bytes, (SBytes,), to_bytes, fromhex=fromhex)
STR = _proxy('str', str, (SStr,), conv_str)


# --------------------------------------------------------------------------
# hooks

def sym_getitem(o, k):
    if isinstance(k, SymBool):
        if isinstance(o, dict):
            k = bool(k)
        else:
            k = core.b2i(k)
    if isinstance(k, SymInt):
        if isinstance(o, (bytes, bytearray)) or (isinstance(o, (list, tuple)) and o and all(type(x) is int for x in o)):
            n = len(o)
            if n <= 4096:
                if k < 0:
                    k = k + n
                    if k < 0:
                        raise IndexError('index out of range')
                if k >= n:
                    raise IndexError('index out of range')
                if isinstance(k, int):
                    return o[k]
                return core.table_lookup(k, dict(enumerate(o)))
        elif isinstance(o, (str, SStr)):
            n = len(o)
            if k < 0:
                k = k + n
                if k < 0:
                    raise IndexError('string index out of range')
            if k >= n:
                raise IndexError('string index out of range')
            if isinstance(k, int):
                return o[k]
            e = slist(o)
            if all(isinstance(x, int) for x in e):
                return mk_str([core.table_lookup(k, dict(enumerate(e)))])
            return mk_str([e[core.concretize(k)]])
        elif isinstance(o, (SBytes, SBytearray)):
            n = len(o)
            if k < 0:
                k = k + n
                if k < 0:
                    raise IndexError('index out of range')
            if k >= n:
                raise IndexError('index out of range')
            return o[core.as_int(k)]
        elif isinstance(o, (list, tuple)):
            n = len(o)
            if k < -n or k >= n:
                raise IndexError('index out of range')
            return o[core.as_int(k)]
        elif isinstance(o, dict):
            return dict_lookup(o, k)
        return o[k]
    if isinstance(o, dict) and needs_scan(k):
        return dict_lookup(o, k)
    return o[k]


def needs_scan(k):
    if isinstance(k, (SBytes, SStr, SymBool, SymInt)):
        return True
    if isinstance(k, tuple):
        return any(needs_scan(x) for x in k)
    return False


MISSING = object()


def dict_find(d, k):
    """d.get(k, MISSING) for a symbolic key"""
    if isinstance(k, SymInt):
        ints = {a: b for a, b in d.items() if type(a) is int}
        if ints and len(ints) == len(d) and all(type(b) is int for b in ints.values()):
            if mkbool(seq.in_table(k, ints)):
                return core.table_lookup(k, ints)
            return plain_missing(d)
        if ints and len(ints) == len(d):
            if mkbool(seq.in_table(k, ints)):
                return ints[core.concretize(k)]
            return plain_missing(d)
    if isinstance(k, SStr) and len(k.e) == 1 and isinstance(k.e[0], SymInt):
        # one symbolic character
        ch = {ord(a): b for a, b in d.items() if isinstance(a, str) and len(a) == 1}
        if len(ch) == len(d) and ch and all(type(b) is int for b in ch.values()):
            if mkbool(seq.in_table(k.e[0], ch)):
                return core.table_lookup(k.e[0], ch)
            return plain_missing(d)
    if isinstance(k, SBytes) and len(k.e) == 1 and isinstance(k.e[0], SymInt):
        ch = {a[0]: b for a, b in d.items() if isinstance(a, bytes) and len(a) == 1}
        if len(ch) == len(d) and ch and all(type(b) is int for b in ch.values()):
            if mkbool(seq.in_table(k.e[0], ch)):
                return core.table_lookup(k.e[0], ch)
            return plain_missing(d)
    for a, b in d.items():
        if same_kind(a, k) and a == k:
            return b
    return plain_missing(d)


def plain_missing(d):
    return MISSING


def same_kind(a, k):
    if isinstance(k, (SStr, str)):
        return isinstance(a, (str, SStr))
    if isinstance(k, (SBytes, bytes)):
        return isinstance(a, (bytes, SBytes))
    if isinstance(k, tuple):
        return isinstance(a, tuple) and len(a) == len(k)
    return True


def dict_lookup(d, k):
    r = dict_find(d, k)
    if r is MISSING:
        if hasattr(type(d), '__missing__'):
            return type(d).__missing__(d, k)
        raise KeyError(k)
    return r


def sym_in(x, c):
    if isinstance(c, dict) and needs_scan(x):
        if isinstance(x, SymInt) and all(type(a) is int for a in c):
            return mkbool(seq.in_table(x, c))
        return dict_find(c, x) is not MISSING
    if isinstance(c, (set, frozenset)) and needs_scan(x):
        if isinstance(x, SymInt) and all(type(a) is int for a in c):
            return mkbool(seq.in_table(x, c))
        return any(same_kind(a, x) and bool(a == x) for a in list(c))
    if isinstance(c, range) and isinstance(x, SymInt):
        if len(c) == 0:
            return False
        lo, hi = min(c[0], c[-1]), max(c[0], c[-1])
        f = [core.fof(x >= lo), core.fof(x <= hi)]
        if abs(c.step) != 1:
            return mkbool(core.f_in(x.t, sorted(c)))
        return mkbool(f_and(f))
    if isinstance(c, (bytes, bytearray)):
        if isinstance(x, SymInt):
            return mkbool(seq.in_table(x, dict.fromkeys(c)))
        if isinstance(x, (SBytes, SBytearray)):
            if len(x.e) == 1:
                return mkbool(seq.in_table(x.e[0], dict.fromkeys(c)))
            return SBytes(list(c)).find(x) != -1
    if isinstance(c, str) and isinstance(x, SStr):
        if len(x.e) == 1 and isinstance(x.e[0], SymInt):
            return mkbool(seq.in_table(x.e[0], dict.fromkeys(ord(a) for a in c)))
        return SStr(slist(c)).find(x) != -1
    if isinstance(c, (tuple, list)) and isinstance(x, SymInt) and c and all(type(a) is int for a in c):
        return mkbool(seq.in_table(x, dict.fromkeys(c)))
    if isinstance(c, (list, tuple)) and type(c) in (list, tuple):
        for a in c:
            if a is x:
                return True
        # like the interpreter: first equal element wins
        for a in c:
            r = a == x
            if r is not NotImplemented and r:
                return True
        return False
    return x in c


def sym_is(a, b):
    """a is True / a is False"""
    if isinstance(a, SymBool):
        return a == b
    return a is b


def sym_reraise():
    e = sys.exc_info()[1]
    if isinstance(e, Control):
        raise e


METHODS = frozenset('''join format get index find rfind count startswith endswith replace split partition rstrip lstrip
    strip translate decode encode setdefault pop fromkeys union extend append insert remove to_bytes hex zfill
    rjust ljust center isdisjoint issubset issuperset intersection difference update add discard format_map rindex
    bit_length'''.split())


def sym_meth(o, name):
    if isinstance(o, str):
        if name == 'format':
            return lambda *a, **k: sym_format(o, a, k)
        if name == 'join':
            def join(parts):
                parts = list(parts)
                if all(isinstance(p, str) for p in parts):
                    return o.join(parts)
                for i, p in enumerate(parts):
                    if not isinstance(p, (str, SStr)):
                        raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(p).__name__))
                return SStr(slist(o)).join(parts)
            return join
        f = getattr(o, name)

        def call(*a, **k):
            if any(has_sym(x) for x in a):
                if name in ('index', 'find') and len(a) == 1 and isinstance(a[0], SStr) and len(a[0].e) == 1:
                    return str_index(o, a[0].e[0], name)
                return getattr(SStr(slist(o)), name)(*a, **k)
            return f(*a, **k)
        return call
    if isinstance(o, bytes):
        f = getattr(o, name)
        if name == 'join':
            def bjoin(parts):
                parts = list(parts)
                if all(isinstance(p, bytes) for p in parts):
                    return o.join(parts)
                out = []
                for i, p in enumerate(parts):
                    if not seq.is_bytes_like(p):
                        raise TypeError('sequence item %d: expected a bytes-like object, %s found' % (i, type(p).__name__))
                    if i:
                        out.extend(o)
                    out.extend(blist(p))
                return mk_bytes(out)
            return bjoin

        def call(*a, **k):
            if any(has_sym(x) for x in a):
                if name in ('index', 'find') and len(a) == 1 and (
                        isinstance(a[0], SymInt) or (isinstance(a[0], (SBytes, SBytearray)) and len(a[0].e) == 1)):
                    x = a[0] if isinstance(a[0], SymInt) else a[0].e[0]
                    return str_index(o, x, name)
                return getattr(SBytes(list(o)), name)(*a, **k)
            return f(*a, **k)
        return call
    if isinstance(o, dict):
        if name == 'get':
            def get(k, d=None):
                if needs_scan(k):
                    r = dict_find(o, k)
                    return d if r is MISSING else r
                return o.get(k, d)
            return get
        if name in ('pop', 'setdefault'):
            f = getattr(o, name)

            def call(k, *d):
                if needs_scan(k):
                    for a in list(o):
                        if same_kind(a, k) and a == k:
                            return f(a, *d)
                return f(k, *d)
            return call
    if isinstance(o, int) and name == 'to_bytes' and not isinstance(o, type):
        def itb(length=1, byteorder='big', *, signed=False):
            return int(o).to_bytes(core.as_int(length), byteorder, signed=signed)
        return itb
    return getattr(o, name)


def str_index(o, x, name):
    tab = {}
    for i, c in enumerate(o):
        c = ord(c) if isinstance(c, str) else c
        tab.setdefault(c, i)
    if isinstance(x, int):
        ok = x in tab
    else:
        ok = mkbool(seq.in_table(x, tab))
    if ok:
        return tab[x] if isinstance(x, int) else core.table_lookup(x, tab)
    if name == 'index':
        raise ValueError('substring not found')
    return -1


ENTERED = set()


class Ticker(object):
    n = 0
    limit = 400000


def sym_enter(name):
    ENTERED.add(name)
    sym_tick()


def sym_tick():
    Ticker.n += 1
    if Ticker.n & 255 == 0 and core.S is not None:
        core.S.check_deadline()
        if Ticker.n > Ticker.limit:
            raise Unsupported('too many steps on one path')


def make_builtins(imp):
    d = dict(vars(B))
    d.update(bytes=BYTES, bytearray=ByteArray, int=INT, str=STR, float=FLOAT, bool=BOOL, ord=b_ord, hash=b_hash, chr=b_chr, pow=b_pow,
             round=b_round, repr=mk_repr, ascii=mk_repr, hex=b_hex, bin=b_bin, format=b_format, divmod=b_divmod,
             print=b_print, type=TypeProxy, getattr=b_getattr, setattr=b_setattr, __import__=imp)
    d.update(__sym_getitem__=sym_getitem, __sym_in__=sym_in, __sym_is__=sym_is, __sym_mod__=sym_mod,
             __sym_fstr__=sym_fstr, __sym_conv__=sym_conv, __sym_meth__=sym_meth, __sym_enter__=sym_enter,
             __sym_tick__=sym_tick, __sym_reraise__=sym_reraise)
    return d
