"""Residues modulo large primes, and the abstract secp256k1 group.

Contracts used here (all classical, listed in the evidence as assumptions):
 * Euler's criterion: a^((p-1)/2) is 1 for nonzero squares, p-1 for non-squares;
 * for p = 3 (mod 4), a^((p+1)/4) is one of the two roots of a square a, and a
   root of -a otherwise;
 * no point of secp256k1 has y = 0 (the group order is odd), so x^3+7 != 0.
 * the group generated by G is isomorphic to Z/n (the real Point class is
   checked separately, on small curves).
"""
from . import core
from .core import SymInt, SymBool, OpaqueKey, Unsupported, canon_mod, symm, terms, p_add, p_const, p_mul, p_scale

P = 2 ** 256 - 2 ** 32 - 977
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
GX = 0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798
GY = 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8


def ckey(t):
    return tuple(sorted(t.items()))


def gen_atom(name, key, lo, hi, fn):
    S = core.S
    a = S.new('gen', (None, fn), lo, hi, name=name, key=key)
    return core.var_of(a)


def atom_id(v):
    (m, c), = v.t.items()
    return m[0]


def ob(name, key, fn):
    return core.decide(('ob', OpaqueKey((name, key, fn)), True))


def status(r, m):
    """1 / -1: is the canonical residue r a square mod m"""
    S = core.S
    k = ckey(r)
    if k in S.squares.get(m, {}):
        return 1
    if k in S.nonresidues.get(m, ()):
        return -1
    t = dict(r)
    if ob('square', (m, k), lambda mo: pow(mo.poly(t) % m, (m - 1) // 2, m) == 1):
        y = gen_atom('root', ('root', m, k), 1, m - 1, lambda mo: pow(mo.poly(t) % m, (m + 1) // 4, m))
        register_square(m, y, t)
        return 1
    S.nonresidues.setdefault(m, set()).add(k)
    return -1


def register_square(m, y, t):
    S = core.S
    t = canon_mod(t, m)
    S.squares.setdefault(m, {})[ckey(t)] = y
    if isinstance(y, SymInt):
        S.rewrites.setdefault(m, {})[atom_id(y)] = t


def big_pow(b, e, m):
    S = core.S
    r = canon_mod(b.t, m)
    if not [x for x in r if x]:
        return pow(r.get((), 0), e, m)
    k = ckey(r)
    t = dict(r)
    if m % 4 == 3 and e == (m - 1) // 2:
        S.notes.add("Euler's criterion; x^3+7 has no root modulo p")
        for sign in (1, -1):
            z = core.mod_const(p_scale(r, sign), m)
            if isinstance(z, SymInt):
                core.assume(core.f_not(core.f_eq(z.t)))
        core.assume(core.f_not(core.f_eq(b.t)))
        return 1 if status(r, m) == 1 else m - 1
    if m % 4 == 3 and e == (m + 1) // 4:
        S.notes.add('a^((p+1)/4) is a root of a (square) or of -a (non-square)')
        if status(r, m) == 1:
            y = S.squares[m][k]
            if ob('principal', (m, k), lambda mo: pow(mo.poly(t) % m, e, m) == mo.val(y)):
                return y
            return m - y
        a = gen_atom('nroot', ('nroot', m, k), 0, m - 1, lambda mo: pow(mo.poly(t) % m, e, m))
        S.rewrites.setdefault(m, {})[atom_id(a)] = canon_mod(p_scale(r, -1), m)
        return a
    return gen_atom('pow', ('pow', m, e, k), 0, m - 1, lambda mo: pow(mo.poly(t) % m, e, m))


# --- concrete arithmetic, for evaluating models

def _add(p, q):
    if p is None:
        return q
    if q is None:
        return p
    if p[0] == q[0]:
        if (p[1] + q[1]) % P == 0:
            return None
        l = 3 * p[0] * p[0] * pow(2 * p[1], -1, P) % P
    else:
        l = (q[1] - p[1]) * pow(q[0] - p[0], -1, P) % P
    x = (l * l - p[0] - q[0]) % P
    return x, (l * (p[0] - x) - p[1]) % P


_cache = {}


def concrete_mul(k):
    k %= N
    if k in _cache:
        return _cache[k]
    r, a, e = None, (GX, GY), k
    while e:
        if e & 1:
            r = _add(r, a)
        a = _add(a, a)
        e >>= 1
    _cache[k] = r
    return r


class AbsPoint(object):
    """k*G for a (possibly symbolic) scalar k."""

    def __init__(self, k, curve, order):
        self.curve_ = curve
        self.order_ = order
        if isinstance(k, (SymInt, SymBool)):
            r = canon_mod(terms(k), N)
            k = core.mk(symm(r, N)) if r else 0
        else:
            k %= N
        self.k = k
        self.inf = None

    def is_inf(self):
        if self.inf is None:
            if isinstance(self.k, int):
                self.inf = self.k % N == 0
            else:
                r = core.mod_const(terms(self.k), N)
                self.inf = bool(r == 0)
        return self.inf

    def pair(self):
        if self.is_inf():
            return (None, None)
        if isinstance(self.k, int):
            return concrete_mul(self.k)
        t = canon_mod(terms(self.k), N)
        # P and -P share x
        n = canon_mod(p_scale(t, -1), N)
        neg = ckey(n) < ckey(t)
        base = n if neg else t
        k = ckey(base)
        x = gen_atom('px', ('px', k), 0, P - 1, lambda mo: (concrete_mul(mo.poly(base)) or (0, 0))[0])
        y = gen_atom('py', ('py', k), 1, P - 1, lambda mo: (concrete_mul(mo.poly(base)) or (0, 0))[1])
        if isinstance(y, SymInt) and isinstance(x, SymInt):
            S = core.S
            if ('pt', k) not in S.intern:
                S.intern[('pt', k)] = True
                S.points.append((x, y, base))
                register_square(P, y, p_add(p_mul(p_mul(x.t, x.t), x.t), p_const(7)))
        return (x, P - y) if neg else (x, y)

    def x(self):
        return self.pair()[0]

    def y(self):
        return self.pair()[1]

    def curve(self):
        return self.curve_

    def order(self):
        return self.order_

    def __mul__(self, o):
        return AbsPoint(self.k * o, self.curve_, None)
    __rmul__ = __mul__

    def __add__(self, o):
        if not isinstance(o, AbsPoint):
            o = AbsPoint(0, self.curve_, None) if getattr(o, 'curve', lambda: 1)() is None else o
        if not isinstance(o, AbsPoint):
            return NotImplemented
        return AbsPoint(self.k + o.k, self.curve_, None)

    __radd__ = __add__

    def double(self):
        return AbsPoint(self.k * 2, self.curve_, None)

    def __eq__(self, o):
        if isinstance(o, AbsPoint):
            d = core.mod_const(terms(self.k - o.k), N) if not isinstance(self.k - o.k, int) else (self.k - o.k) % N
            return d == 0
        if getattr(o, 'curve', lambda: 1)() is None:
            return self.is_inf()
        return False

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def point_of_pair(curve, x, y, order):
    """AbsPoint for coordinates that came from one."""
    S = core.S
    if isinstance(x, int) and isinstance(y, int):
        raise Unsupported('concrete point in the abstract group')
    for px, py, base in S.points:
        if isinstance(x, SymInt) and x.t == px.t:
            yt = terms(y)
            if yt == py.t:
                return AbsPoint(core.mk(base), curve, order)
            if not canon_mod(p_add(yt, py.t), P):
                return AbsPoint(core.mk(p_scale(base, -1)), curve, order)
    raise Unsupported('unknown point in the abstract group')


def install(mods):
    """Replace the generator and the Point class in the loaded modules."""
    gen = mods['bitforge.utils.secp256k1'].generator_secp256k1
    Point = mods['bitforge.utils.ellipticcurve'].Point
    if (gen.curve().p(), gen.curve().a(), gen.curve().b(), gen.x(), gen.y(), gen.order()) != (P, 0, 7, GX, GY, N):
        # not the curve the abstraction stands for
        raise Unsupported('curve parameters differ from secp256k1')
    curve = gen.curve()
    g = AbsPoint(1, curve, N)

    class PointMeta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, (AbsPoint, Point))

        def __call__(cls, c, x, y, order=None):
            if c is None:
                return Point(c, x, y, order)
            if isinstance(x, SymInt) or isinstance(y, SymInt):
                return point_of_pair(c, x, y, order)
            return Point(c, x, y, order)

    class PointProxy(metaclass=PointMeta):
        pass
    saved = []
    for name, m in mods.items():
        for k, v in list(vars(m).items()):
            if v is gen:
                saved.append((m, k, v))
                setattr(m, k, g)
            elif v is Point and name != 'bitforge.utils.ellipticcurve':
                saved.append((m, k, v))
                setattr(m, k, PointProxy)
    ec = mods['bitforge.utils.ellipticcurve']
    saved.append((ec, 'Point', Point))
    ec.Point = PointProxy
    return saved


def install_inverse(mods):
    """Replace inverse_mod, for prime moduli, by its contract (which the units `inverse` discharge on the real function)."""
    nt = mods['bitforge.utils.numbertheory']
    real = getattr(nt, 'inverse_mod', None)
    if real is None:
        return []

    def contract(a, m, *rest):
        if not isinstance(a, SymInt) or rest or not isinstance(m, int) or m < 2 or any(m % i == 0 for i in range(2, min(m, 400))):
            return real(a, m, *rest)
        t = a % m
        if t == 0:
            raise AssertionError()
        if not isinstance(t, SymInt):
            return pow(t, -1, m)
        k = ckey(t.t)
        known = core.S.__dict__.setdefault('inverses', {})
        r = known.get((m, k))
        if r is None:
            d = dict(t.t)
            r = gen_atom('inv', ('inv', m, k), 1, m - 1, lambda mo: pow(mo.poly(d) % m, -1, m))
            core.assert_(core.fof((r * t) % m == 1))
            known[(m, k)] = r
        return r
    core.S.notes.add('inverse_mod modulo a prime returns the inverse in 1..m-1 (the units `inverse` check the real function)')
    saved = []
    for name, m in mods.items():
        for k, v in list(vars(m).items()):
            if v is real:
                saved.append((m, k, v))
                setattr(m, k, contract)
    return saved
