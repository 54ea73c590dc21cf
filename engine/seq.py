"""Byte strings, byte arrays and text whose elements may be symbolic; lengths are concrete."""
import builtins as B

from . import core
from .core import SymInt, SymBool, SymFloat, Unsupported, mkbool, f_and, f_or, f_not, fof, as_int, FALSE, TRUE

_bytes, _bytearray, _str, _int = B.bytes, B.bytearray, B.str, B.int


class Opaque(object):
    """A piece of text of unknown content and length: the print-out of a value."""
    __slots__ = ('kind', 'value')

    def __init__(self, kind, value):
        self.kind = kind
        self.value = value

    def same(self, o):
        if self is o:
            return True
        if self.kind != o.kind:
            return False
        try:
            return self.value is o.value or (isinstance(self.value, (SymInt, SymFloat)) and
                                             isinstance(o.value, (SymInt, SymFloat)) and self.value.t == o.value.t)
        except Exception:
            return False


def check_byte(v):
    if isinstance(v, (SymInt, SymBool)):
        if isinstance(v, SymBool):
            v = core.b2i(v)
            if isinstance(v, _int):
                return v
        if not (0 <= v):
            raise ValueError('byte must be in range(0, 256)')
        if not (v <= 255):
            raise ValueError('byte must be in range(0, 256)')
        return v
    if hasattr(v, '__index__'):
        v = v.__index__()
        if not 0 <= v <= 255:
            raise ValueError('byte must be in range(0, 256)')
        return v
    raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)


def mk_bytes(items):
    items = list(items)
    if all(isinstance(x, _int) for x in items):
        return _bytes(items)
    return SBytes(items)


def mk_str(items):
    items = list(items)
    if all(isinstance(x, _int) for x in items):
        return ''.join(B.chr(x) for x in items)
    return SStr(items)


def is_bytes_like(x):
    return isinstance(x, (_bytes, _bytearray, SBytes, SBytearray))


def blist(x):
    """elements of a bytes-like"""
    if isinstance(x, (SBytes, SBytearray)):
        return x.e
    return list(x)


def slist(x):
    if isinstance(x, SStr):
        return x.e
    return [ord(c) for c in x]


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    return mkbool(f_and([elem_eq(x, y) for x, y in zip(a, b)]))


def elem_eq(x, y):
    if isinstance(x, Opaque) or isinstance(y, Opaque):
        if isinstance(x, Opaque) and isinstance(y, Opaque):
            if x.same(y):
                return TRUE
            if x.kind == y.kind and (x.kind in ('int', 'float') or x.kind.startswith('fixed')):
                return fof(x.value == y.value)
        raise Unsupported('comparison of opaque text')
    if isinstance(x, _int) and isinstance(y, _int):
        return TRUE if x == y else FALSE
    return fof(x == y)


def conv_bytes(args):
    """the list of elements bytes(*args)/bytearray(*args) would have"""
    if not args:
        return []
    a = args[0]
    if len(args) > 1:
        if isinstance(a, (_str, SStr)):
            r = a.encode(*args[1:])
            return list(blist(r))
        raise TypeError('encoding without a string argument')
    if isinstance(a, (SBytes, SBytearray)):
        return list(a.e)
    if isinstance(a, (_bytes, _bytearray)):
        return list(a)
    if isinstance(a, (_str, SStr)):
        raise TypeError('string argument without an encoding')
    if isinstance(a, (SymInt, SymBool)):
        n = as_int(a)
        if n < 0:
            raise ValueError('negative count')
        return [0] * n
    if isinstance(a, _int):
        if a < 0:
            raise ValueError('negative count')
        return [0] * a
    if hasattr(a, '__bytes__'):
        return list(blist(a.__bytes__()))
    if hasattr(a, '__index__'):
        return [0] * a.__index__()
    return [check_byte(x) for x in a]


class _Base(object):
    def __len__(self):
        return len(self.e)

    def __iter__(self):
        return iter(list(self.e))

    def __bool__(self):
        return len(self.e) > 0

    def _idx(self, i):
        if isinstance(i, (SymInt, SymBool)):
            n = len(self.e)
            if i < 0:
                i = i + n
            if not (i >= 0):
                raise IndexError('index out of range')
            if not (i < n):
                raise IndexError('index out of range')
            return as_int(i)
        return i

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*(as_int(v) if v is not None else None for v in (i.start, i.stop, i.step)))
            return self._mk(self.e[i])
        return self.e[self._idx(i)]

    def __contains__(self, x):
        if is_bytes_like(x):
            return self.find(x) != -1
        return bool(mkbool(f_or([fof(y == x) for y in self.e])))

    def __eq__(self, o):
        if is_bytes_like(o):
            return seq_eq(self.e, blist(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else core.b_not(r)

    def _cmp(self, o, strict):
        if not is_bytes_like(o):
            return NotImplemented
        a, b = self.e, blist(o)
        for x, y in zip(a, b):
            if x == y:
                continue
            return bool(x < y)
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        return self._cmp(o, True)

    def __le__(self, o):
        return self._cmp(o, False)

    def __gt__(self, o):
        r = self._cmp(o, False)
        return r if r is NotImplemented else not r

    def __ge__(self, o):
        r = self._cmp(o, True)
        return r if r is NotImplemented else not r

    def __add__(self, o):
        if not is_bytes_like(o):
            return NotImplemented if not isinstance(o, (_str, SStr)) else self._typeerr(o)
        return self._mk(self.e + blist(o))

    def _typeerr(self, o):
        raise TypeError("can't concat %s to bytes" % type(o).__name__)

    def __mul__(self, n):
        return self._mk(self.e * as_int(n))
    __rmul__ = __mul__

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        p = blist(p)
        if len(p) > len(self.e):
            return False
        return seq_eq(self.e[:len(p)], p)

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        p = blist(p)
        if len(p) > len(self.e):
            return False
        return seq_eq(self.e[len(self.e) - len(p):], p)

    def find(self, sub, start=0):
        sub = [sub] if isinstance(sub, (_int, SymInt)) else blist(sub)
        for i in range(start, len(self.e) - len(sub) + 1):
            if seq_eq(self.e[i:i + len(sub)], sub):
                return i
        return -1

    def index(self, sub, start=0):
        r = self.find(sub, start)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def count(self, sub):
        sub = [sub] if isinstance(sub, (_int, SymInt)) else blist(sub)
        if len(sub) != 1:
            raise Unsupported('count')
        return sum(1 for x in self.e if x == sub[0])

    def lstrip(self, chars=b' \t\n\r\x0b\x0c'):
        e = list(self.e)
        cs = list(chars)
        while e and mkbool(f_or([fof(e[0] == c) for c in cs])):
            e = e[1:]
        return self._mk(e)

    def rstrip(self, chars=b' \t\n\r\x0b\x0c'):
        e = list(self.e)
        cs = list(chars)
        while e and mkbool(f_or([fof(e[-1] == c) for c in cs])):
            e = e[:-1]
        return self._mk(e)

    def strip(self, chars=b' \t\n\r\x0b\x0c'):
        return self.lstrip(chars).rstrip(chars)

    def rjust(self, n, fill=b' '):
        return self._mk(blist(fill) * max(0, as_int(n) - len(self.e)) + self.e)

    def ljust(self, n, fill=b' '):
        return self._mk(self.e + blist(fill) * max(0, as_int(n) - len(self.e)))

    def zfill(self, n):
        return self.rjust(n, b'0')

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out.extend(self.e)
            out.extend(blist(p))
        return self._mk(out)

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, self._mk([]), self._mk([])
        return self[:i], self._mk(blist(sep)), self[i + len(sep):]

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc in ('latin-1', 'latin1', 'iso-8859-1'):
            return mk_str(self.e)
        if enc not in ('utf-8', 'utf8', 'ascii', 'us-ascii'):
            raise Unsupported('codec ' + encoding)
        ok = mkbool(f_and([fof(x <= 127) for x in self.e]))
        if ok:
            return mk_str(self.e)
        if enc in ('ascii', 'us-ascii'):
            raise UnicodeDecodeError('ascii', b'', 0, 1, 'ordinal not in range(128)')
        raise Unsupported('decoding non-ASCII utf-8')

    def hex(self, *a):
        if a:
            raise Unsupported('hex(sep)')
        return mk_str(hex_chars(self.e))

    def __repr__(self):
        return '<symbolic bytes>'

    def __copy__(self):
        return self._mk(list(self.e))


class SBytes(_Base):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _mk(self, e):
        return mk_bytes(e)

    def __radd__(self, o):
        if isinstance(o, _bytes):
            return mk_bytes(list(o) + self.e)
        if isinstance(o, _bytearray):
            return BYTEARRAY(list(o) + self.e)
        if isinstance(o, _str):
            raise TypeError('can only concatenate str (not "bytes") to str')
        return NotImplemented

    def __hash__(self):
        return hash(('sym bytes', len(self.e)))

    def translate(self, table):
        t = list(table)
        return mk_bytes([core.table_lookup(x, dict(enumerate(t))) if isinstance(x, SymInt) else t[x] for x in self.e])


class SBytearray(_Base):
    def __init__(self, *args):
        self.e = conv_bytes(args)

    def _mk(self, e):
        r = BYTEARRAY()
        r.e = list(e)
        return r

    __hash__ = None

    def __radd__(self, o):
        if isinstance(o, _bytes):
            return mk_bytes(list(o) + self.e)
        if isinstance(o, _str):
            raise TypeError('can only concatenate str (not "bytearray") to str')
        return NotImplemented

    def __iadd__(self, o):
        if isinstance(o, (_str, SStr)):
            raise TypeError("can't concat str to bytearray")
        self.extend(o)
        return self

    def append(self, x):
        self.e.append(check_byte(x))

    def extend(self, it):
        if is_bytes_like(it):
            self.e.extend(blist(it))
        elif isinstance(it, (_str, SStr)):
            raise TypeError("expected iterable of integers; got: 'str'")
        else:
            self.e.extend([check_byte(x) for x in it])

    def insert(self, i, x):
        self.e.insert(as_int(i), check_byte(x))

    def pop(self, i=-1):
        return self.e.pop(self._idx(i))

    def remove(self, x):
        for i, y in enumerate(self.e):
            if y == x:
                del self.e[i]
                return
        raise ValueError('value not found in bytearray')

    def reverse(self):
        self.e.reverse()

    def clear(self):
        del self.e[:]

    def copy(self):
        return self._mk(self.e)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            i = slice(*(as_int(x) if x is not None else None for x in (i.start, i.stop, i.step)))
            self.e[i] = blist(v) if is_bytes_like(v) else [check_byte(x) for x in v]
        else:
            self.e[self._idx(i)] = check_byte(v)

    def __delitem__(self, i):
        if isinstance(i, slice):
            i = slice(*(as_int(x) if x is not None else None for x in (i.start, i.stop, i.step)))
            del self.e[i]
        else:
            del self.e[self._idx(i)]

    def __imul__(self, n):
        self.e *= as_int(n)
        return self


BYTEARRAY = SBytearray

HEX = dict((i, ord('0123456789abcdef'[i])) for i in range(16))
UNHEX = {}
for _i in range(10):
    UNHEX[ord('0') + _i] = _i
for _i in range(6):
    UNHEX[ord('a') + _i] = 10 + _i
    UNHEX[ord('A') + _i] = 10 + _i


def hex_chars(e):
    out = []
    for b in e:
        for n in (b >> 4, b & 15):
            out.append(core.table_lookup(n, HEX) if isinstance(n, SymInt) else HEX[n])
    return out


def in_table(c, tab):
    if isinstance(c, _int):
        return TRUE if c in tab else FALSE
    # look through a table atom: decide on its index
    t = c.t
    ms = [m for m in t if m]
    if len(ms) == 1 and len(ms[0]) == 1:
        a = core.S.atoms[ms[0][0]]
        if a.kind == 'table':
            inner, tb = a.data
            k, c0 = t[ms[0]], t.get((), 0)
            good = sorted(i for i, v in tb.items() if k * v + c0 in tab)
            if len(good) == len(tb):
                return TRUE
            return core.f_in(inner, good)
    return core.f_in(t, sorted(tab))


def unhex(e):
    """bytes of a list of character codes, or None if invalid"""
    if len(e) % 2:
        return None
    if not mkbool(f_and([in_table(c, UNHEX) for c in e])):
        return None
    vals = [core.table_lookup(c, UNHEX) if isinstance(c, SymInt) else UNHEX[c] for c in e]
    return mk_bytes([vals[i] * 16 + vals[i + 1] for i in range(0, len(vals), 2)])


WS = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) + \
     [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]


class SStr(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _opaque(self):
        if any(isinstance(x, Opaque) for x in self.e):
            raise Unsupported('opaque text')

    def __len__(self):
        self._opaque()
        return len(self.e)

    def __bool__(self):
        return len(self.e) > 0

    def __iter__(self):
        self._opaque()
        return iter([mk_str([x]) for x in self.e])

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*(as_int(v) if v is not None else None for v in (i.start, i.stop, i.step)))
            if any(isinstance(x, Opaque) for x in self.e):
                pre = 0
                while not isinstance(self.e[pre], Opaque):
                    pre += 1
                if i.step in (None, 1) and i.start is not None and 0 <= i.start <= pre and i.stop is None:
                    return mk_str(self.e[i.start:])
                if i.step in (None, 1) and i.stop is not None and 0 <= i.stop <= pre and (i.start or 0) >= 0:
                    return mk_str(self.e[i])
                raise Unsupported('opaque text')
            return mk_str(self.e[i])
        self._opaque()
        return mk_str([self.e[as_int(i)]])

    def __eq__(self, o):
        if isinstance(o, (_str, SStr)):
            a, b = self.e, slist(o)
            if any(isinstance(x, Opaque) for x in a + b):
                # equal structure is equal text; anything else is not decided here
                if len(a) == len(b):
                    fs = [elem_eq(x, y) for x, y in zip(a, b)]
                    return mkbool(f_and(fs))
                i = 0
                while i < min(len(a), len(b)) and not isinstance(a[i], Opaque) and not isinstance(b[i], Opaque):
                    if elem_eq(a[i], b[i]) == FALSE:
                        return False
                    i += 1
                raise Unsupported('comparison of opaque text')
            return seq_eq(a, b)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else core.b_not(r)

    def __hash__(self):
        return hash(('sym str', len(self.e)))

    def __lt__(self, o):
        if not isinstance(o, (_str, SStr)):
            return NotImplemented
        self._opaque()
        for x, y in zip(self.e, slist(o)):
            if x == y:
                continue
            return bool(x < y)
        return len(self.e) < len(o)

    def __gt__(self, o):
        return not (self == o) and not (self < o)

    def __add__(self, o):
        if not isinstance(o, (_str, SStr)):
            if is_bytes_like(o):
                raise TypeError('can only concatenate str (not "bytes") to str')
            return NotImplemented
        return mk_str(self.e + slist(o))

    def __radd__(self, o):
        if isinstance(o, _str):
            return mk_str(slist(o) + self.e)
        if isinstance(o, _bytes):
            raise TypeError("can't concat str to bytes")
        return NotImplemented

    def __mul__(self, n):
        return mk_str(self.e * as_int(n))
    __rmul__ = __mul__

    def __mod__(self, o):
        raise Unsupported('symbolic format')

    def __contains__(self, x):
        return self.find(x) != -1

    def find(self, sub, start=0):
        self._opaque()
        sub = slist(sub)
        for i in range(start, len(self.e) - len(sub) + 1):
            if seq_eq(self.e[i:i + len(sub)], sub):
                return i
        return -1

    def index(self, sub, start=0):
        r = self.find(sub, start)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub):
        sub = slist(sub)
        if len(sub) != 1:
            raise Unsupported('count')
        return sum(1 for x in self.e if x == sub[0])

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        p = slist(p)
        head = self.e[:len(p)]
        if any(isinstance(x, Opaque) for x in head):
            i = 0
            while not isinstance(head[i], Opaque):
                if elem_eq(head[i], p[i]) == FALSE:
                    return False
                i += 1
            raise Unsupported('opaque text')
        if len(p) > len(self.e):
            return False
        return seq_eq(head, p)

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        self._opaque()
        p = slist(p)
        if len(p) > len(self.e):
            return False
        return seq_eq(self.e[len(self.e) - len(p):], p)

    def isdigit(self):
        self._opaque()
        if not self.e:
            return False
        a = mkbool(f_and([f_and([fof(x >= 48), fof(x <= 57)]) for x in self.e]))
        if a:
            return True
        if mkbool(f_and([fof(x <= 127) for x in self.e])):
            return False
        raise Unsupported('non-ASCII digits')

    isdecimal = isnumeric = isdigit

    def isspace(self):
        self._opaque()
        return bool(self.e) and mkbool(f_and([core.f_or([fof(x == w) for w in WS]) for x in self.e]))

    def _is_ws(self, x):
        if isinstance(x, Opaque):
            return False
        if isinstance(x, _int):
            return x in WS
        return bool(mkbool(core.f_in(x.t, sorted(WS))))

    def split(self, sep=None, maxsplit=-1):
        out, cur = [], []
        if sep is None:
            for x in self.e:
                if self._is_ws(x):
                    if cur:
                        out.append(mk_str(cur))
                    cur = []
                else:
                    cur.append(x)
            if cur:
                out.append(mk_str(cur))
            return out
        sep = slist(sep)
        if len(sep) != 1:
            raise Unsupported('split')
        n = 0
        for x in self.e:
            if (maxsplit < 0 or n < maxsplit) and not isinstance(x, Opaque) and x == sep[0]:
                out.append(mk_str(cur))
                cur = []
                n += 1
            else:
                cur.append(x)
        out.append(mk_str(cur))
        return out

    def partition(self, sep):
        s = slist(sep)
        if len(s) != 1:
            raise Unsupported('partition')
        for i, x in enumerate(self.e):
            if not isinstance(x, Opaque) and x == s[0]:
                return mk_str(self.e[:i]), sep, mk_str(self.e[i + 1:])
        return self, '', ''

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def _in(self, x, chars):
        if isinstance(x, Opaque):
            return False
        if chars is None:
            return self._is_ws(x)
        return bool(mkbool(f_or([fof(x == c) for c in slist(chars)])))

    def lstrip(self, chars=None):
        e = list(self.e)
        while e and self._in(e[0], chars):
            e = e[1:]
        return mk_str(e)

    def rstrip(self, chars=None):
        e = list(self.e)
        while e and self._in(e[-1], chars):
            e = e[:-1]
        if e and isinstance(e[-1], Opaque):
            e = e[:-1] + self._strip_opaque(e[-1], chars)
        return mk_str(e)

    def _strip_opaque(self, o, chars):
        """what is left of a print-out after rstrip(chars)"""
        if chars is None:
            if o.kind in ('int', 'float') or o.kind.startswith('fixed'):
                return [o]
            raise Unsupported('stripping opaque text')
        c = set(slist(chars))
        if not all(isinstance(x, _int) for x in c) or o.kind.startswith('fmt') or o.kind == 'repr':
            raise Unsupported('stripping opaque text')
        if not c & set(b'0123456789.infa'):
            return [o]
        if not o.kind.startswith('fixed') or not c <= {48, 46}:
            raise Unsupported('stripping opaque text')
        prec, st = o.kind[5:].split(':')
        prec, st = _int(prec), _int(st)
        if prec == 0:
            raise Unsupported('stripping opaque text')
        if c == {48}:
            if st == 2:
                raise Unsupported('stripping opaque text')
            return [Opaque('fixed%d:1' % prec, o.value)]
        if c == {46}:
            return [Opaque('fixed%d:%d' % (prec, 2 if st else 0), o.value)]
        n = o.value.trunc()
        if not (o.value == n):
            return [Opaque('fixed%d:2' % prec, o.value)]
        if n == 0:
            return []
        while n % 10 == 0:
            n = n // 10
        return [Opaque('int', n)]

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out.extend(self.e)
            out.extend(slist(p))
        return mk_str(out)

    def _case(self, lo, hi, d):
        out = []
        for x in self.e:
            if isinstance(x, Opaque):
                raise Unsupported('opaque text')
            if isinstance(x, _int):
                out.append(x + d if lo <= x <= hi else x)
            else:
                if not (x <= 127):
                    raise Unsupported('case of non-ASCII text')
                out.append(core.table_lookup(x, {i: (i + d if lo <= i <= hi else i) for i in range(128)}))
        return mk_str(out)

    def lower(self):
        return self._case(65, 90, 32)

    def upper(self):
        return self._case(97, 122, -32)

    def replace(self, a, b):
        a, b = slist(a), slist(b)
        if len(a) != 1:
            raise Unsupported('replace')
        out = []
        for x in self.e:
            if not isinstance(x, Opaque) and x == a[0]:
                out.extend(b)
            else:
                out.append(x)
        return mk_str(out)

    def zfill(self, n):
        self._opaque()
        return mk_str([48] * max(0, as_int(n) - len(self.e)) + self.e)

    def rjust(self, n, fill=' '):
        self._opaque()
        return mk_str(slist(fill) * max(0, as_int(n) - len(self.e)) + self.e)

    def ljust(self, n, fill=' '):
        self._opaque()
        return mk_str(self.e + slist(fill) * max(0, as_int(n) - len(self.e)))

    def encode(self, encoding='utf-8', errors='strict'):
        self._opaque()
        enc = encoding.lower().replace('_', '-')
        if mkbool(f_and([fof(x <= 127) for x in self.e])):
            return mk_bytes(self.e)
        if enc in ('ascii', 'us-ascii'):
            raise UnicodeEncodeError('ascii', 'x', 0, 1, 'ordinal not in range(128)')
        if enc in ('latin-1', 'latin1'):
            if mkbool(f_and([fof(x <= 255) for x in self.e])):
                return mk_bytes(self.e)
            raise UnicodeEncodeError('latin-1', 'x', 0, 1, 'ordinal not in range(256)')
        if enc not in ('utf-8', 'utf8'):
            raise Unsupported('codec ' + encoding)
        if mkbool(f_or([f_and([fof(x >= 0xd800), fof(x <= 0xdfff)]) for x in self.e])):
            raise UnicodeEncodeError('utf-8', 'x', 0, 1, 'surrogates not allowed')
        out = []
        for x in self.e:
            if x <= 0x7f:
                out.append(x)
            elif x <= 0x7ff:
                out += [0xc0 + (x >> 6), 0x80 + (x & 63)]
            elif x <= 0xffff:
                out += [0xe0 + (x >> 12), 0x80 + ((x >> 6) & 63), 0x80 + (x & 63)]
            else:
                out += [0xf0 + (x >> 18), 0x80 + ((x >> 12) & 63), 0x80 + ((x >> 6) & 63), 0x80 + (x & 63)]
        return mk_bytes(out)

    def format(self, *a, **k):
        raise Unsupported('symbolic format')

    def __str__(self):
        return '<symbolic text>'

    def __repr__(self):
        return '<symbolic text>'


SBytes.__getattr__ = core._no_attr(_bytes)
SStr.__getattr__ = core._no_attr(_str)


def _ba_attr(self, name):
    if name == 'e':
        raise AttributeError(name)
    return core._no_attr(_bytearray)(self, name)


SBytearray.__getattr__ = _ba_attr
