"""Symbolic core: polynomials over integer atoms, formulas, path state, z3 back end.

Integers are Python's unbounded ones.  A symbolic integer is a polynomial over
*atoms*.  Base atoms are inputs or outputs of uninterpreted functions; derived
atoms (floor quotients, residues, table look-ups, 0/1 of a formula, roundings)
carry an exact definition, which is emitted to z3 together with any formula
that mentions them, and which `eval` uses to compute them from a model.
"""
import math
import time
from fractions import Fraction

import z3


class Control(BaseException):
    """Path-steering exceptions: never caught by the code under test."""


class Infeasible(Control):
    pass


class Unsupported(Control):
    pass


class Budget(Control):
    pass


S = None  # the current path state


def state():
    return S


def set_state(s):
    global S
    S = s


# --------------------------------------------------------------------------
# atoms

class Atom(object):
    __slots__ = ('id', 'kind', 'data', 'lo', 'hi', 'name', 'real', 'extra')

    def __init__(self, id, kind, data, lo, hi, name, real=False):
        self.id = id
        self.kind = kind      # var | uf | quot | res | table | b2i | dq | round | err
        self.data = data
        self.lo = lo
        self.hi = hi
        self.name = name
        self.real = real
        self.extra = None


def _add(a, b):
    return None if a is None or b is None else a + b


def _imul(x, y):
    """Product of two intervals."""
    (a, b), (c, d) = x, y
    if a is not None and b is not None and c is not None and d is not None:
        ps = (a * c, a * d, b * c, b * d)
        return min(ps), max(ps)
    if a is not None and a >= 0 and c is not None and c >= 0:
        return a * c, (None if b is None or d is None else b * d)
    return None, None


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.decisions = 0
        self.forks = 0
        self.folded = 0


class State(object):
    """Everything that belongs to one path."""

    def __init__(self, trace, model=None, backend='int', stats=None, timeout=20000, deadline=None):
        self.trace = trace
        self.pos = 0
        self.alternatives = []
        self.atoms = []
        self.intern = {}
        self.facts = {}
        self.fixed = {}
        self.path = []
        self.emitted = 0
        self.solver = None
        self.zcache = {}
        self.model = model if model is not None else Model({})
        self.backend = backend
        self.stats = stats or Stats()
        self.timeout = timeout
        self.deadline = deadline
        self.uf_apps = {}       # name -> list of (args, outs)
        self.uf_order = []
        self.squares = {}       # modulus -> {canonical residue key: root SymInt/int}
        self.nonresidues = {}   # modulus -> set of canonical keys
        self.rewrites = {}      # modulus -> {(atom id): poly for atom^2}
        self.points = []        # abstract curve points
        self.inputs = {}
        self.input_order = []
        self.gens = []          # concrete generators of input values (abstract points)
        self.opaque = {}
        self.log = []
        self.notes = set()
        self.truncated = False
        self.unknowns = 0
        self.rng = []
        self.rng_sizes = []
        self.sigs = []

    # -- atoms
    def new(self, kind, data, lo, hi, name=None, key=None, real=False):
        if key is not None:
            a = self.intern.get(key)
            if a is not None:
                return a
        a = Atom(len(self.atoms), kind, data, lo, hi, name or '%s%d' % (kind, len(self.atoms)), real)
        self.atoms.append(a)
        if key is not None:
            self.intern[key] = a
        return a

    def atom_bounds(self, i):
        a = self.atoms[i]
        lo, hi = a.lo, a.hi
        if a.kind == 'quot':
            t, c = a.data
            l, h = bounds(t)
            if l is not None:
                l = l // c
                lo = l if lo is None or l > lo else lo
            if h is not None:
                h = h // c
                hi = h if hi is None or h < hi else hi
        return lo, hi

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time')


# --------------------------------------------------------------------------
# polynomials: {monomial (sorted tuple of atom ids): coefficient}, no zeros

def nonconst_key(t):
    """(key, sign*gcd) such that the nonconstant part is factor * normalised."""
    items = sorted((m, c) for m, c in t.items() if m)
    if not items:
        return None, 1
    g = 0
    frac = False
    for _, c in items:
        if isinstance(c, Fraction):
            frac = True
            break
        g = math.gcd(g, c)
    if frac:
        lead = items[0][1]
        return tuple((m, Fraction(c) / lead) for m, c in items), lead
    if items[0][1] < 0:
        g = -g
    if g != 1:
        items = [(m, c // g) for m, c in items]
    return tuple(items), g


def mono_bounds(m):
    if len(m) == 1:
        return S.atom_bounds(m[0])
    r = None
    i = 0
    while i < len(m):
        j = i
        while j < len(m) and m[j] == m[i]:
            j += 1
        b = S.atom_bounds(m[i])
        n = j - i
        x = b
        for _ in range(n - 1):
            x = _imul(x, b)
        if n % 2 == 0:
            lo = x[0]
            x = (0 if lo is None or lo < 0 else lo, x[1])
        r = x if r is None else _imul(r, x)
        i = j
    return r


def bounds(t, use_facts=True):
    c0 = t.get((), 0)
    lo = hi = c0
    for m, c in t.items():
        if not m:
            continue
        l, h = mono_bounds(m)
        if c < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
    if use_facts and S.facts:
        key, f = nonconst_key(t)
        fb = S.facts.get(key)
        if fb is not None:
            l, h = fb
            if f < 0:
                l, h = h, l
            if l is not None:
                v = f * l + c0
                if lo is None or v > lo:
                    lo = v
            if h is not None:
                v = f * h + c0
                if hi is None or v < hi:
                    hi = v
    return lo, hi


def add_fact(t, lo, hi):
    """lo <= t <= hi is known on this path."""
    key, f = nonconst_key(t)
    if key is None:
        return
    c0 = t.get((), 0)
    real = isinstance(f, Fraction)

    def conv(v, up):
        if v is None:
            return None
        v = v - c0
        if real:
            return Fraction(v) / f
        if up:
            return _fdiv(v, f)
        return _cdiv(v, f)
    if f > 0:
        nlo, nhi = conv(lo, False), conv(hi, True)
    else:
        nlo, nhi = conv(hi, False), conv(lo, True)
    if len(key) == 1 and len(key[0][0]) == 1:
        a = S.atoms[key[0][0][0]]
        # key coefficient is 1 after normalisation
        if nlo is not None and (a.lo is None or nlo > a.lo):
            a.lo = nlo
        if nhi is not None and (a.hi is None or nhi < a.hi):
            a.hi = nhi
        if a.lo is not None and a.lo == a.hi and not a.real:
            S.fixed[a.id] = a.lo
        return
    old = S.facts.get(key)
    if old is not None:
        if nlo is None or (old[0] is not None and old[0] > nlo):
            nlo = old[0]
        if nhi is None or (old[1] is not None and old[1] < nhi):
            nhi = old[1]
    S.facts[key] = (nlo, nhi)


def _fdiv(v, f):
    return v // f


def _cdiv(v, f):
    return -((-v) // f)


def p_norm(t):
    """Substitute atoms whose value is fixed on this path."""
    fixed = S.fixed
    if not fixed:
        return t
    if not any(i in fixed for m in t for i in m):
        return t
    r = {}
    for m, c in t.items():
        if any(i in fixed for i in m):
            k = []
            for i in m:
                if i in fixed:
                    c = c * fixed[i]
                else:
                    k.append(i)
            m = tuple(k)
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(a, k):
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def p_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def p_const(c):
    return {(): c} if c else {}


def is_real(t):
    return any(isinstance(c, Fraction) for c in t.values()) or any(S.atoms[i].real for m in t for i in m)


def degree(t):
    return max([len(m) for m in t] or [0])


def terms(x):
    """polynomial of an int-like value"""
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return b2i(x).t if isinstance(b2i(x), SymInt) else p_const(b2i(x))
    return p_const(int(x))


def mk(t):
    t = p_norm(t)
    if not t:
        return 0
    if len(t) == 1 and () in t:
        return t[()]
    return SymInt(t)


def var_of(a):
    return mk({(a.id,): 1})


# --------------------------------------------------------------------------
# division, residues, tables

def floordiv_const(t, c):
    """floor(t / c) for a constant c > 0, as an int-like value."""
    if c == 1:
        return mk(t)
    A, B = {}, {}
    for m, k in t.items():
        if not m:
            q, r = divmod(k, c)
            if q:
                A[()] = q
            if r:
                B[()] = r
        elif k % c == 0:
            A[m] = k // c
        else:
            B[m] = k
    if not [m for m in B if m]:
        return mk(A)
    lo, hi = bounds(B)
    if lo is not None and hi is not None and lo // c == hi // c:
        return mk(p_add(A, p_const(lo // c)))
    # nested quotients compose
    nk = [m for m in B if m]
    if len(nk) == 1 and len(nk[0]) == 1 and B[nk[0]] == 1:
        a = S.atoms[nk[0][0]]
        if a.kind == 'quot':
            P, c1 = a.data
            return mk(p_add(A, terms(floordiv_const(p_add(P, p_const(B.get((), 0) * c1)), c * c1))))
    # reduce by common factor
    g = c
    for m, k in B.items():
        if m:
            g = math.gcd(g, k)
    if g > 1:
        B = {m: (k // g if m else k // g) for m, k in B.items() if not (not m and k // g == 0)}
        c = c // g
        lo, hi = bounds(B)
        if c == 1:
            return mk(p_add(A, B))
    key = ('quot', tuple(sorted(B.items())), c)
    a = S.new('quot', (B, c), None if lo is None else lo // c, None if hi is None else hi // c, key=key)
    return mk(p_add(A, {(a.id,): 1}))


def is_modulus(c):
    return c > (1 << 100) and c % 2 == 1


def canon_mod(t, c):
    """Canonical polynomial congruent to t mod c."""
    rw = S.rewrites.get(c, {})
    t = p_norm(t)
    for _ in range(64):
        r = {}
        changed = False
        for m, k in t.items():
            k %= c
            if not k:
                continue
            sub = None
            for i in m:
                a = S.atoms[i]
                if a.kind == 'res' and a.data[1] == c:
                    rest = list(m)
                    rest.remove(i)
                    sub = (tuple(rest), a.data[0])
                    break
            if sub is None and len(m) >= 2:
                for x in range(len(m) - 1):
                    if m[x] == m[x + 1] and m[x] in rw:
                        rest = m[:x] + m[x + 2:]
                        sub = (rest, rw[m[x]])
                        break
            if sub is not None:
                changed = True
                prod = p_mul({sub[0]: k}, sub[1])
            else:
                prod = {m: k}
            for m2, k2 in prod.items():
                v = (r.get(m2, 0) + k2) % c
                if v:
                    r[m2] = v
                else:
                    r.pop(m2, None)
        t = r
        if not changed:
            break
    return t


def symm(t, c):
    """coefficients mapped to (-c/2, c/2]"""
    return {m: (k - c if k > c // 2 else k) for m, k in t.items()}


def mod_const(t, c):
    if c < 0:
        return -mod_const(p_scale(t, -1), -c)
    lo, hi = bounds(t)
    if lo is not None and hi is not None and lo // c == hi // c:
        return mk(p_add(t, p_const(-c * (lo // c))))
    if is_modulus(c) or degree(t) > 1:
        # with bit-vectors, residues stay small atoms of their own
        r = canon_mod(t, c) if S.backend != 'bv' else p_norm({m: k % c for m, k in t.items() if k % c})
        if not r:
            return 0
        if len(r) == 1 and () in r:
            return r[()]
        s = symm(r, c)
        for cand in (s, r):
            l, h = bounds(cand)
            if l is not None and h is not None and l // c == h // c:
                return mk(p_add(cand, p_const(-c * (l // c))))
        key = ('res', tuple(sorted(r.items())), c)
        a = S.new('res', (s, c), 0, c - 1, key=key)
        return var_of(a)
    q = floordiv_const(t, c)
    r = p_norm(p_add(t, terms(q), -c))
    add_fact(r, 0, c - 1)
    return mk(r)


def table_lookup(idx, table, name='table'):
    """table[idx] for a SymInt idx known to lie in the keys of the dict `table`."""
    t = idx.t
    # composition with an existing table
    if len(t) <= 2:
        ms = [m for m in t if m]
        if len(ms) == 1 and len(ms[0]) == 1 and t[ms[0]] in (1, -1):
            a = S.atoms[ms[0][0]]
            if a.kind == 'table':
                inner, tab = a.data
                k, c0 = t[ms[0]], t.get((), 0)
                lo, hi = bounds(inner)
                dom = {i: table[k * v + c0] for i, v in tab.items()
                       if k * v + c0 in table and (lo is None or i >= lo) and (hi is None or i <= hi)}
                return table_lookup(SymInt(inner), dom, name)
    lo, hi = bounds(t)
    tab = {i: v for i, v in table.items() if (lo is None or i >= lo) and (hi is None or i <= hi)}
    if not tab:
        raise Infeasible()
    vals = set(tab.values())
    if len(vals) == 1:
        return vals.pop()
    offs = set(v - i for i, v in tab.items())
    if len(offs) == 1:
        return mk(p_add(t, p_const(offs.pop())))
    items = tuple(sorted(tab.items()))
    a = S.new('table', (t, tab), min(vals), max(vals), key=('table', tuple(sorted(t.items())), items))
    return var_of(a)


def segments(tab):
    """[(lo, hi, slope, offset)] covering the table with value = slope*i + offset."""
    out = []
    items = sorted(tab.items())
    i = 0
    while i < len(items):
        k0, v0 = items[i]
        j = i
        slope = None
        while j + 1 < len(items) and items[j + 1][0] == items[j][0] + 1:
            d = items[j + 1][1] - items[j][1]
            if slope is None:
                slope = d
            elif d != slope:
                break
            j += 1
        slope = slope or 0
        out.append((k0, items[j][0], slope, v0 - slope * k0))
        i = j + 1
    return out


# --------------------------------------------------------------------------
# formulas

TRUE = ('true',)
FALSE = ('false',)


def f_le(t):
    """t <= 0"""
    t = p_norm(t)
    if is_real(t):
        if not [m for m in t if m]:
            return TRUE if t.get((), 0) <= 0 else FALSE
        return ('le', t)
    g = 0
    for m, c in t.items():
        if m:
            g = math.gcd(g, c)
    if g == 0:
        return TRUE if t.get((), 0) <= 0 else FALSE
    if g > 1:
        c0 = t.get((), 0)
        t = {m: c // g for m, c in t.items() if m}
        c0 = -((-c0) // g)
        if c0:
            t[()] = c0
    return ('le', t)


def f_eq(t):
    t = p_norm(t)
    ms = [m for m in t if m]
    if not ms:
        return FALSE if t.get((), 0) else TRUE
    if not is_real(t):
        g = 0
        for m in ms:
            g = math.gcd(g, t[m])
        if t.get((), 0) % g:
            return FALSE
        if g > 1:
            t = {m: c // g for m, c in t.items()}
        if len(ms) == 1 and len(ms[0]) == 1:
            a = S.atoms[ms[0][0]]
            v = -t.get((), 0) // t[ms[0]]
            if a.kind == 'table':
                inner, tab = a.data
                pre = sorted(i for i, x in tab.items() if x == v)
                return f_in(inner, pre)
            if a.kind == 'quot':
                P, c = a.data
                return f_and([f_le(p_add(p_const(c * v), P, -1)), f_le(p_add(P, p_const(-(c * v + c - 1))))])
            if a.kind == 'b2i':
                if v == 1:
                    return a.data
                if v == 0:
                    return f_not(a.data)
                return FALSE
        if len(ms) == 1 and len(ms[0]) == 2 and ms[0][0] == ms[0][1] and () not in t:
            return f_eq({(ms[0][0],): 1})
    return ('eq', t)


def f_in(t, values):
    """t takes one of the sorted constant values"""
    if not values:
        return FALSE
    rs = []
    s = e = values[0]
    for v in values[1:]:
        if v == e + 1:
            e = v
        else:
            rs.append((s, e))
            s = e = v
    rs.append((s, e))
    fs = []
    for s, e in rs:
        if s == e:
            fs.append(f_eq(p_add(t, p_const(-s))))
        else:
            fs.append(f_and([f_le(p_add(p_const(s), t, -1)), f_le(p_add(t, p_const(-e)))]))
    return f_or(fs)


def f_not(f):
    k = f[0]
    if k == 'true':
        return FALSE
    if k == 'false':
        return TRUE
    if k == 'le':
        t = f[1]
        n = p_scale(t, -1)
        if is_real(t):
            return ('lt', n)
        return f_le(p_add(n, p_const(1)))
    if k == 'lt':
        return ('le', p_scale(f[1], -1))
    if k == 'eq':
        return ('ne', f[1])
    if k == 'ne':
        return f_eq(f[1])
    if k == 'and':
        return f_or([f_not(x) for x in f[1]])
    if k == 'or':
        return f_and([f_not(x) for x in f[1]])
    if k == 'ob':
        return ('ob', f[1], not f[2])
    raise AssertionError(k)


def f_and(fs):
    out = []
    for f in fs:
        if f[0] == 'true':
            continue
        if f[0] == 'false':
            return FALSE
        if f[0] == 'and':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ('and', out)


def f_or(fs):
    out = []
    for f in fs:
        if f[0] == 'false':
            continue
        if f[0] == 'true':
            return TRUE
        if f[0] == 'or':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ('or', out)


def quick(f):
    """True/False when decided by the bounds known on this path, else None."""
    k = f[0]
    if k == 'true':
        return True
    if k == 'false':
        return False
    if k in ('le', 'lt'):
        t = p_norm(f[1])
        lo, hi = bounds(t)
        if k == 'le':
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        else:
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        return None
    if k in ('eq', 'ne'):
        t = p_norm(f[1])
        if not t:
            return k == 'eq'
        lo, hi = bounds(t)
        r = None
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            r = False
        elif lo is not None and lo == hi == 0:
            r = True
        if r is None:
            key, fa = nonconst_key(t)
            ne = S.facts.get(('ne', key))
            if ne is not None and not isinstance(fa, Fraction):
                c0 = t.get((), 0)
                if c0 % fa == 0 and (-c0 // fa) in ne:
                    r = False
        if r is None:
            return None
        return r if k == 'eq' else not r
    if k == 'and':
        res = True
        for x in f[1]:
            v = quick(x)
            if v is False:
                return False
            if v is None:
                res = None
        return res
    if k == 'or':
        res = False
        for x in f[1]:
            v = quick(x)
            if v is True:
                return True
            if v is None:
                res = None
        return res
    if k == 'ob':
        v = S.opaque.get(f[1])
        if v is None:
            return None
        return v if f[2] else not v
    raise AssertionError(k)


def learn(f):
    k = f[0]
    if k in ('le', 'lt'):
        t = f[1]
        add_fact(t, None, 0)
        ms = [m for m in t if m]
        if k == 'le' and len(ms) == 1 and len(ms[0]) == 1:
            a = S.atoms[ms[0][0]]
            if a.kind == 'quot' and t[ms[0]] in (1, -1):
                P, c = a.data
                c0 = t.get((), 0)
                if t[ms[0]] == 1:      # q <= -c0  <=>  P <= c*(-c0) + c - 1
                    learn(f_le(p_add(P, p_const(c * c0 - c + 1))))
                else:                  # q >= c0  <=>  P >= c*c0
                    learn(f_le(p_add(p_const(c * c0), P, -1)))
    elif k == 'eq':
        add_fact(f[1], 0, 0)
    elif k == 'ne':
        t = f[1]
        lo, hi = bounds(t)
        if lo == 0:
            add_fact(t, 1, None)
        elif hi == 0:
            add_fact(t, None, -1)
        else:
            key, fa = nonconst_key(t)
            c0 = t.get((), 0)
            if key is not None and not isinstance(fa, Fraction) and c0 % fa == 0:
                S.facts.setdefault(('ne', key), set()).add(-c0 // fa)
    elif k == 'and':
        for x in f[1]:
            learn(x)
    elif k == 'ob':
        S.opaque[f[1]] = f[2]


def assert_(f):
    S.path.append(f)
    learn(f)


# --------------------------------------------------------------------------
# evaluation under a model

class Model(object):
    def __init__(self, base, gens=None):
        self.base = base      # atom id -> value, for base atoms
        self.cache = {}
        self.uf = {}
        self.gens = gens or {}

    def atom(self, i):
        v = self.cache.get(i)
        if v is not None:
            return v
        v = self._atom(i)
        self.cache[i] = v
        return v

    def _atom(self, i):
        a = S.atoms[i]
        k = a.kind
        if k == 'quot':
            t, c = a.data
            return self.poly(t) // c
        if k == 'res':
            t, c = a.data
            return self.poly(t) % c
        if k == 'table':
            t, tab = a.data
            x = self.poly(t)
            if x in tab:
                return tab[x]
            return min(tab.values())
        if k == 'b2i':
            return 1 if self.holds(a.data) else 0
        if k == 'dq':
            t1, t2 = a.data
            d = self.poly(t2)
            return self.poly(t1) // d if d else 0
        if k == 'round':
            return round(self.poly(a.data))
        if k == 'err':
            # rounding error of the nearest double
            x = self.poly(a.data)
            try:
                return Fraction(_tofloat(x)) - x
            except OverflowError:
                return 0
        if k == 'uf':
            app, idx = a.data
            return app.value(self)[idx]
        if i in self.base:
            return self.base[i]
        if k == 'gen':
            src, fn = a.data
            return fn(self)
        lo, hi = a.lo, a.hi
        if lo is not None:
            return lo
        if hi is not None:
            return hi
        return 0

    def poly(self, t):
        s = t.get((), 0)
        for m, c in t.items():
            if not m:
                continue
            v = c
            for i in m:
                v = v * self.atom(i)
            s += v
        return s

    def val(self, x):
        if isinstance(x, SymInt):
            return self.poly(x.t)
        if isinstance(x, SymBool):
            return self.holds(x.f)
        return x

    def holds(self, f):
        k = f[0]
        if k == 'true':
            return True
        if k == 'false':
            return False
        if k == 'le':
            return self.poly(f[1]) <= 0
        if k == 'lt':
            return self.poly(f[1]) < 0
        if k == 'eq':
            return self.poly(f[1]) == 0
        if k == 'ne':
            return self.poly(f[1]) != 0
        if k == 'and':
            return all(self.holds(x) for x in f[1])
        if k == 'or':
            return any(self.holds(x) for x in f[1])
        if k == 'ob':
            return bool(f[1][-1](self)) == f[2]
        raise AssertionError(k)


class OpaqueKey(tuple):
    """(name, structural key..., evaluator): identity ignores the evaluator."""
    def __eq__(self, o):
        return isinstance(o, OpaqueKey) and tuple(self[:-1]) == tuple(o[:-1])

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(tuple(self[:-1]))


def _tofloat(x):
    if isinstance(x, Fraction):
        return x.numerator / x.denominator
    return float(x)


# --------------------------------------------------------------------------
# z3

def zatom(i, out):
    a = S.atoms[i]
    z = S.zcache.get(i)
    if z is not None:
        return z
    if S.backend == 'bv':
        return zatom_bv(i, out)
    z = (z3.Real if a.real else z3.Int)('%s!%d' % (a.name, i))
    S.zcache[i] = z
    emit_def(a, z, out)
    return z


def emit_def(a, z, out):
    if a.lo is not None:
        out.append(z >= znum(a.lo))
    if a.hi is not None:
        out.append(z <= znum(a.hi))
    k = a.kind
    if k == 'quot':
        t, c = a.data
        P = zpoly(t, out)
        out.append(znum(c) * z <= P)
        out.append(P <= znum(c) * z + znum(c - 1))
    elif k == 'res':
        t, c = a.data
        if degree(t) <= 1 or S.backend == 'bv' or c < (1 << 40):
            P = zpoly(t, out)
            lo, hi = bounds(t)
            q = z3.Int('rq!%d' % a.id)
            if lo is not None:
                out.append(q >= znum(lo // c))
            if hi is not None:
                out.append(q <= znum(hi // c))
            out.append(P == znum(c) * q + z)
        # else: abstract, only the range is known to the solver
    elif k == 'table':
        t, tab = a.data
        x = zpoly(t, out)
        segs = segments(tab)
        out.append(z3.Or([z3.And(x >= znum(lo), x <= znum(hi), z == (znum(s) * x + znum(o) if s else znum(o)))
                          for lo, hi, s, o in segs]))
    elif k == 'b2i':
        out.append((z == 1) == zform(a.data, out))
    elif k == 'dq':
        t1, t2 = a.data
        n, d = zpoly(t1, out), zpoly(t2, out)
        out.append(z3.Implies(d > 0, z3.And(z * d <= n, n < z * d + d)))
        out.append(z3.Implies(d < 0, z3.And(z * d >= n, n > z * d + d)))
    elif k == 'round':
        x = zpoly(a.data, out)
        out.append(x - z <= z3.Q(1, 2))
        out.append(z - x <= z3.Q(1, 2))
    elif k == 'err':
        x = zpoly(a.data, out)
        b = z3.If(x >= 0, x, -x) * z3.Q(1, 2 ** 53)
        out.append(z <= b + z3.Q(1, 2 ** 1074))
        out.append(-z <= b + z3.Q(1, 2 ** 1074))
    elif k == 'uf':
        app, idx = a.data
        app.ackermann(out)


def znum(c):
    if isinstance(c, Fraction):
        if c.denominator == 1:
            return z3.RealVal(c.numerator)
        return z3.Q(c.numerator, c.denominator)
    return z3.IntVal(c)


def zpoly(t, out):
    if S.backend == 'bv':
        return zpoly_bv(t, out)
    parts = []
    for m, c in t.items():
        if not m:
            parts.append(znum(c))
            continue
        p = None
        for i in m:
            z = zatom(i, out)
            p = z if p is None else p * z
        parts.append(p if c == 1 else znum(c) * p)
    if not parts:
        return z3.IntVal(0)
    return z3.Sum(parts) if len(parts) > 1 else parts[0]


def zform(f, out):
    k = f[0]
    if k == 'true':
        return z3.BoolVal(True)
    if k == 'false':
        return z3.BoolVal(False)
    if k in ('le', 'lt', 'eq', 'ne'):
        if S.backend == 'bv':
            return zrel_bv(k, f[1], out)
        # keep positive terms left and negative right
        l = {m: c for m, c in f[1].items() if c > 0}
        r = {m: -c for m, c in f[1].items() if c < 0}
        L, R = zpoly(l, out), zpoly(r, out)
        return {'le': L <= R, 'lt': L < R, 'eq': L == R, 'ne': L != R}[k]
    if k == 'and':
        return z3.And([zform(x, out) for x in f[1]])
    if k == 'or':
        return z3.Or([zform(x, out) for x in f[1]])
    if k == 'ob':
        key = ('ob', f[1])
        b = S.zcache.get(key)
        if b is None:
            b = z3.Bool('ob!%d' % len(S.zcache))
            S.zcache[key] = b
        return b if f[2] else z3.Not(b)
    raise AssertionError(k)


# -- bit-vector emission, for small nonlinear arithmetic (toy curves).
# Every polynomial is computed in as many bits as its value can take, so nothing wraps.

W = 256      # widest polynomial that is accepted


def bv_ext(a, v, w):
    """the variable v of atom a in w bits"""
    n = v.size()
    if w == n:
        return v
    if w < n:
        raise AssertionError('narrowing')
    return z3.ZeroExt(w - n, v) if S.zcache[('range', a.id)][0] >= 0 else z3.SignExt(w - n, v)


def bv_magnitude(t):
    tot = 0
    for m, c in t.items():
        x = abs(c)
        for i in m:
            d = S.zcache.get(('range', i))        # bounds at the time it was declared: later ones may depend on this very formula
            a = S.atoms[i]
            lo, hi = d if d is not None else (a.lo, a.hi)
            if lo is None or hi is None:
                raise Unsupported('unbounded atom in bit-vector encoding')
            x *= max(abs(lo), abs(hi), 1)
        tot += x
    return tot


def bv_width(*polys):
    w = max([bv_magnitude(t) for t in polys]).bit_length() + 2
    if w > W:
        raise Unsupported('polynomial too wide for bit-vector encoding')
    return w


def zatom_bv(i, out):
    """the raw variable of an atom, in as many bits as it needs"""
    v = S.zcache.get(i)
    if v is not None:
        return v
    a = S.atoms[i]
    lo, hi = a.lo, a.hi
    if lo is None or hi is None:
        raise Unsupported('unbounded atom in bit-vector encoding')
    m = max(abs(lo), abs(hi))
    if m >= 1 << (W - 2):
        raise Unsupported('atom too wide for bit-vector encoding')
    n = max(1, hi.bit_length()) if lo >= 0 else m.bit_length() + 1
    v = z3.BitVec('%s!%d' % (a.name, i), n)
    S.zcache[i] = v
    S.zcache[('raw', i)] = v
    S.zcache[('range', i)] = (lo, hi)
    if lo >= 0:
        if hi != (1 << n) - 1:
            out.append(z3.ULE(v, z3.BitVecVal(hi, n)))
        if lo:
            out.append(z3.UGE(v, z3.BitVecVal(lo, n)))
    else:
        out.append(v <= hi)
        out.append(v >= lo)
    k = a.kind
    if k in ('quot', 'res'):
        t, c = a.data
        lo, hi = bounds(t)
        if lo is None or hi is None:
            raise Unsupported('unbounded residue')
        P = zpoly_bv(t, out)
        big = max(bv_magnitude(t), abs(lo), abs(hi))
        w = max(n, P.size(), (big + 2 * c + c * (max(abs(lo // c), abs(hi // c)) + 1)).bit_length() + 2)
        P = zpoly_bv(t, out, w)
        if k == 'quot':
            z = bv_ext(a, v, w) if w > n else v
            out.append(P >= z * c)
            out.append(P <= z * c + (c - 1))
        else:
            qlo, qhi = lo // c, hi // c
            q = z3.BitVec('rq!%d' % i, max(1, (qhi - qlo).bit_length()))
            out.append(z3.ULE(q, z3.BitVecVal(qhi - qlo, q.size())))
            Q = z3.ZeroExt(w - q.size(), q)
            out.append(P - z3.BitVecVal(qlo * c, w) == Q * z3.BitVecVal(c, w) + bv_ext(a, v, w))
    elif k == 'table':
        t, tab = a.data
        zpoly_bv(t, out)
        w = max(bv_width(t), n + 2)
        segs = segments(tab)
        w = max(w, max((max(abs(l), abs(h)) * abs(s) + abs(o)) for l, h, s, o in segs).bit_length() + 2)
        x = zpoly_bv(t, out, w)
        z = bv_ext(a, v, w)
        out.append(z3.Or([z3.And(x >= l, x <= h, z == (x * s + o if s else z3.BitVecVal(o, w)))
                          for l, h, s, o in segs]))
    elif k == 'b2i':
        out.append((v == 1) == zform(a.data, out))
    elif k in ('dq', 'dr'):
        t1, t2 = a.data[:2]
        l1, h1 = bounds(t1)
        l2, h2 = bounds(t2)
        if l1 is None or l1 < 0 or l2 is None or l2 < 0:
            raise Unsupported('signed symbolic division')
        zpoly_bv(t1, out), zpoly_bv(t2, out)
        w = max(bv_width(t1), bv_width(t2), h1.bit_length() + h2.bit_length() + 2, n)
        N_, D_ = zpoly_bv(t1, out, w), zpoly_bv(t2, out, w)
        key = ('div', tuple(sorted(t1.items())), tuple(sorted(t2.items())))
        qr = S.zcache.get(key)
        if qr is None:
            q = z3.BitVec('dq!%d' % i, max(1, h1.bit_length()))
            r = z3.BitVec('dr!%d' % i, max(1, h2.bit_length()))
            Q, R = z3.ZeroExt(w - q.size(), q), z3.ZeroExt(w - r.size(), r)
            out.append(z3.Implies(D_ != 0, z3.And(N_ == Q * D_ + R, R < D_, Q <= N_)))
            qr = S.zcache[key] = (Q, R)
        x = qr[0] if k == 'dq' else qr[1]
        w2 = max(w, x.size(), n)
        out.append(z3.Implies(D_ != 0, (bv_ext(a, v, w2)) == (x if x.size() == w2 else z3.ZeroExt(w2 - x.size(), x))))
    elif k == 'uf':
        a.data[0].ackermann(out)
    elif k not in ('var', 'gen'):
        raise Unsupported('bv ' + k)
    return v


def zpoly_bv(t, out, w=None):
    for m in t:
        for i in m:
            zatom_bv(i, out)
    if w is None:
        w = bv_width(t)
    r = z3.BitVecVal(t.get((), 0), w)
    for m, c in t.items():
        if not m:
            continue
        p = None
        for i in m:
            z = bv_ext(S.atoms[i], zatom_bv(i, out), w)
            p = z if p is None else p * z
        r = r + (p if c == 1 else p * z3.BitVecVal(c, w))
    return r


def zrel_bv(k, t, out):
    l = {m: c for m, c in t.items() if c > 0}
    r = {m: -c for m, c in t.items() if c < 0}
    for m in t:
        for i in m:
            zatom_bv(i, out)
    w = bv_width(l, r)
    L, R = zpoly_bv(l, out, w), zpoly_bv(r, out, w)
    return {'le': L <= R, 'lt': L < R, 'eq': L == R, 'ne': L != R}[k]


def sync():
    s = S
    if s.solver is None:
        s.solver = z3.Solver()
        s.solver.set('timeout', s.timeout)
    while s.emitted < len(s.path):
        f = s.path[s.emitted]
        s.emitted += 1
        out = []
        z = zform(f, out)
        for c in out:
            s.solver.add(c)
        s.solver.add(z)


def get_model():
    m = S.solver.model()
    base = {}
    for a in S.atoms:
        if a.kind in ('var', 'uf'):
            if S.backend == 'bv':
                z = S.zcache.get(('raw', a.id))
                if z is None:
                    continue
                v = m.eval(z, model_completion=True)
                v = v.as_long() if S.zcache[('range', a.id)][0] >= 0 else v.as_signed_long()
            else:
                z = S.zcache.get(a.id)
                if z is None:
                    continue
                v = m.eval(z, model_completion=True)
                if a.real:
                    v = Fraction(v.numerator_as_long(), v.denominator_as_long()) if z3.is_rational_value(v) else Fraction(0)
                else:
                    v = v.as_long()
            base[a.id] = v
    return Model(base)


def query(extra):
    """sat/unsat/unknown of path ∧ extra (a formula); returns (verdict, model)."""
    st = S.stats
    S.check_deadline()
    sync()
    s = S.solver
    out = []
    z = zform(extra, out)
    for c in out:      # definitional: may stay
        s.add(c)
    if z3.is_false(z3.simplify(z)):
        return 'unsat', None
    s.push()
    s.add(z)
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception as e:
        s.pop()
        raise Unsupported('solver: %s' % e)
    dt = time.time() - t0
    st.time += dt
    st.queries += 1
    res, model = str(r), None
    if r == z3.sat:
        st.sat += 1
        model = get_model()
    elif r == z3.unsat:
        st.unsat += 1
    else:
        st.unknown += 1
        S.unknowns += 1
    s.pop()
    return res, model


def real_ok(model):
    """does this model satisfy the whole path when derived atoms are recomputed?"""
    return all(model.holds(f) for f in S.path)


def decide(f):
    v = quick(f)
    if v is not None:
        S.stats.folded += 1
        return v
    S.stats.decisions += 1
    if S.pos < len(S.trace):
        d = S.trace[S.pos]
        S.pos += 1
        assert_(f if d else f_not(f))
        return d
    g = f_not(f)
    m = S.model
    mv = None
    if m is not None:
        try:
            mv = m.holds(f)
        except Control:
            mv = None
    if mv is None:
        r, m2 = query(f)
        if r == 'unsat':
            mv, other = False, None
            r2, m2 = query(g)
            if r2 == 'unsat':
                raise Infeasible()
            S.model = m2
            S.trace.append(False)
            S.pos += 1
            assert_(g)
            return False
        S.model = m2
        mv = True
    r, m2 = query(g if mv else f)
    if r != 'unsat':
        S.stats.forks += 1
        S.alternatives.append((S.trace[:S.pos] + [not mv], m2.base if m2 else None))
    S.trace.append(mv)
    S.pos += 1
    assert_(f if mv else g)
    return mv


def entailed(f):
    """does f hold for every input that takes this path?  Never forks; 'unknown' counts as no."""
    v = quick(f)
    if v is not None:
        return v
    if S.pos < len(S.trace):
        d = S.trace[S.pos][1]
        S.pos += 1
    else:
        try:
            d = S.model is None or S.model.holds(f)
        except Control:
            d = True
        d = bool(d) and query(f_not(f))[0] == 'unsat'
        S.trace.append(('entailed', d))
        S.pos += 1
    if d:
        assert_(f)
    return d


def concretize(x, limit=600):
    """Fork over the values of a SymInt."""
    for _ in range(limit):
        lo, hi = bounds(x.t)
        if lo is not None and lo == hi:
            return lo
        if S.pos < len(S.trace):
            e = S.trace[S.pos]
            S.pos += 1
            v, d = e
            f = f_eq(p_add(x.t, p_const(-v)))
            assert_(f if d else f_not(f))
            if d:
                return v
            continue
        m = S.model
        if m is None:
            r, m = query(TRUE)
            if r == 'unsat':
                raise Infeasible()
            if m is None:
                raise Unsupported('no model to concretize with')
            S.model = m
        v = m.val(x)
        f = f_eq(p_add(x.t, p_const(-v)))
        g = f_not(f)
        r, m2 = query(g)
        if r != 'unsat':
            S.stats.forks += 1
            S.alternatives.append((S.trace[:S.pos] + [(v, False)], m2.base if m2 else None))
        S.trace.append((v, True))
        S.pos += 1
        assert_(f)
        return v
    raise Unsupported('too many values')


def assume(f):
    """Add f to the path; the path ends here if it cannot hold."""
    v = quick(f)
    if v is True:
        return
    if v is False:
        raise Infeasible()
    m = S.model
    ok = m is not None and m.holds(f)
    replaying = S.pos < len(S.trace)
    if not ok and not replaying:
        r, m2 = query(f)
        if r == 'unsat':
            raise Infeasible()
        S.model = m2
    assert_(f)


# --------------------------------------------------------------------------
# SymBool / SymInt

def is_sym(x):
    return isinstance(x, (SymInt, SymBool))


class SymBool(object):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return decide(self.f)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            a, b = self.f, o.f
            return mkbool(f_or([f_and([a, b]), f_and([f_not(a), f_not(b)])]))
        if isinstance(o, bool):
            return mkbool(self.f if o else f_not(self.f))
        if isinstance(o, (int, SymInt)):
            return b2i(self) == o
        return False

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __hash__(self):
        return hash(decide(self.f))

    def __int__(self):
        return int(decide(self.f))

    def __index__(self):
        return int(decide(self.f))

    def __repr__(self):
        return '<symbolic bool>'

    def __invert__(self):
        return -1 - b2i(self)

    def _i(op):
        def fn(self, *a):
            return getattr(_wrap(b2i(self)), op)(*a)
        return fn
    for _op in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__lt__', '__le__', '__gt__',
                '__ge__', '__floordiv__', '__mod__', '__lshift__', '__rlshift__', '__rshift__', '__neg__'):
        locals()[_op] = _i(_op)
    del _op

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(f_and([self.f, fof(o)]))
        return b2i(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(f_or([self.f, fof(o)]))
        return b2i(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        return b_not(self == o)
    __rxor__ = __xor__


def _wrap(x):
    return x


def mkbool(f):
    q = quick(f)
    if q is not None:
        return q
    return SymBool(f)


def fof(b):
    """formula of a truth value"""
    if isinstance(b, SymBool):
        return b.f
    if isinstance(b, SymInt):
        return f_not(f_eq(b.t))
    return TRUE if b else FALSE


def b_not(b):
    if isinstance(b, SymBool):
        return mkbool(f_not(b.f))
    if b is NotImplemented:
        return b
    return not b


def b2i(b):
    if isinstance(b, SymBool):
        q = quick(b.f)
        if q is not None:
            return int(q)
        a = S.new('b2i', b.f, 0, 1)
        return var_of(a)
    return int(b)


def const_pow2(c):
    return c > 0 and c & (c - 1) == 0


def and_const(t, m):
    """t & m for constant m >= 0"""
    r = {}
    runs = []
    i = 0
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> j) & 1:
                j += 1
            runs.append((i, j))
            i = j
        else:
            i += 1
    if len(runs) > 12:
        raise Unsupported('mask')
    tot = 0
    for i, j in runs:
        lowi = terms(floordiv_const(t, 1 << i)) if i else t
        part = mod_const(lowi, 1 << (j - i))
        tot = tot + part * (1 << i)
    return tot


class SymInt(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    # arithmetic
    def _bin(self, o):
        if isinstance(o, (int, SymInt, SymBool)):
            return terms(o)
        return None

    def __add__(self, o):
        if isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) + o
        t = self._bin(o)
        return NotImplemented if t is None else mk(p_add(self.t, t))
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) - o
        t = self._bin(o)
        return NotImplemented if t is None else mk(p_add(self.t, t, -1))

    def __rsub__(self, o):
        if isinstance(o, (float, SymFloat)):
            return SymFloat.of(o) - SymFloat.of(self)
        t = self._bin(o)
        return NotImplemented if t is None else mk(p_add(t, self.t, -1))

    def __mul__(self, o):
        if isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) * o
        if isinstance(o, (bytes, str, list, tuple, bytearray)):
            return o * concretize(self)
        t = self._bin(o)
        if t is None:
            return NotImplemented
        r = p_mul(self.t, t)
        if degree(r) > 12:
            raise Unsupported('degree')
        return mk(r)
    __rmul__ = __mul__

    def __neg__(self):
        return mk(p_scale(self.t, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __invert__(self):
        return -1 - self

    def __floordiv__(self, o):
        return div_mod(self, o)[0]

    def __rfloordiv__(self, o):
        return div_mod(o, self)[0]

    def __mod__(self, o):
        return div_mod(self, o, True)[1]

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        return div_mod(o, self, True)[1]

    def __divmod__(self, o):
        return div_mod(self, o)

    def __rdivmod__(self, o):
        return div_mod(o, self)

    def __truediv__(self, o):
        return SymFloat.of(self) / o

    def __rtruediv__(self, o):
        return SymFloat.of(o) / SymFloat.of(self)

    def __pow__(self, e, m=None):
        return sym_pow(self, e, m)

    def __rpow__(self, b):
        return sym_pow(b, self, None)

    def __lshift__(self, k):
        k = as_int(k)
        if k < 0:
            raise ValueError('negative shift count')
        return mk(p_scale(self.t, 1 << k))

    def __rlshift__(self, o):
        return o << concretize(self)

    def __rshift__(self, k):
        k = as_int(k)
        if k < 0:
            raise ValueError('negative shift count')
        return floordiv_const(self.t, 1 << k)

    def __rrshift__(self, o):
        return o >> concretize(self)

    def __and__(self, o):
        if isinstance(o, SymBool):
            o = b2i(o)
        if isinstance(o, int):
            o = int(o)
            if o >= 0:
                return and_const(self.t, o)
            lo, hi = bounds(self.t)
            if lo is not None and lo >= 0 and hi is not None:
                return and_const(self.t, o & ((1 << max(hi.bit_length(), 1)) - 1))
            raise Unsupported('& negative')
        if isinstance(o, SymInt):
            return bitwise(self, o, lambda a, b: a * b)
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (int, SymBool, SymInt)):
            return self + o - (self & o)
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (int, SymBool, SymInt)):
            return self + o - 2 * (self & o)
        return NotImplemented
    __rxor__ = __xor__

    # comparisons
    def __eq__(self, o):
        if isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) == o
        t = self._bin(o)
        if t is None:
            return NotImplemented
        return mkbool(f_eq(p_add(self.t, t, -1)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __le__(self, o):
        if isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) <= o
        t = self._bin(o)
        return NotImplemented if t is None else mkbool(f_le(p_add(self.t, t, -1)))

    def __lt__(self, o):
        if isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) < o
        t = self._bin(o)
        return NotImplemented if t is None else mkbool(f_le(p_add(p_add(self.t, t, -1), p_const(1))))

    def __ge__(self, o):
        if isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) >= o
        t = self._bin(o)
        return NotImplemented if t is None else mkbool(f_le(p_add(t, self.t, -1)))

    def __gt__(self, o):
        if isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) > o
        t = self._bin(o)
        return NotImplemented if t is None else mkbool(f_le(p_add(p_add(t, self.t, -1), p_const(1))))

    def __bool__(self):
        return decide(f_not(f_eq(self.t)))

    def __hash__(self):
        return hash(concretize(self))

    def __index__(self):
        return concretize(self)

    def __int__(self):
        return concretize(self)

    def __float__(self):
        return float(concretize(self))

    def __round__(self, n=None):
        return self

    def __repr__(self):
        return '<symbolic int>'

    def __format__(self, spec):
        return '<symbolic int>'

    # int methods
    def bit_length(self):
        x = abs(self)
        if isinstance(x, int):
            return x.bit_length()
        return BitLen(x, 0, 1, 0)

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from . import seq
        length = as_int(length)
        if length < 0:
            raise ValueError('length argument must be non-negative')
        if signed:
            if not (-(1 << (8 * length - 1)) <= self < (1 << (8 * length - 1))):
                raise OverflowError('int too big to convert')
            x = self + (1 << (8 * length)) if self < 0 else self
        else:
            x = self
            if x < 0:
                raise OverflowError("can't convert negative int to unsigned")
            if x >= (1 << (8 * length)):
                raise OverflowError('int too big to convert')
        out = []
        for _ in range(length):
            out.append(x & 0xff)
            x = x >> 8
        if byteorder == 'big':
            out.reverse()
        elif byteorder != 'little':
            raise ValueError("byteorder must be either 'little' or 'big'")
        return seq.mk_bytes(out)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self


def _no_attr(real):
    def f(self, name):
        if hasattr(real, name):
            raise Unsupported('%s.%s' % (real.__name__, name))
        raise AttributeError("'%s' object has no attribute %r" % (real.__name__, name))
    return f


SymInt.__getattr__ = _no_attr(int)


class BitLen(SymInt):
    """floor((x.bit_length() + a) / d) + c for a symbolic x >= 0; splits on its value only when that is needed."""
    __slots__ = ('x', 'a', 'd', 'c', 'v')

    def __init__(self, x, a, d, c):
        self.x, self.a, self.d, self.c, self.v = x, a, d, c, None

    @property
    def t(self):
        if self.v is None:
            lo, hi = bounds(terms(self.x))
            k = ((lo.bit_length() if lo and lo > 0 else 0) + self.a) // self.d + self.c
            while not self <= k:
                k += 1
                if k > 4096:
                    raise Unsupported('bit_length')
            self.v = k
        return p_const(self.v)

    def _le(self, k):
        n = (k - self.c + 1) * self.d - self.a - 1      # value <= k iff bit_length <= n
        return self.x < (1 << n) if n >= 0 else False

    def _shift(self, o):
        return BitLen(self.x, self.a, self.d, self.c + o)

    def __add__(self, o):
        return self._shift(o) if self.v is None and isinstance(o, int) else SymInt.__add__(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        return self._shift(-o) if self.v is None and isinstance(o, int) else SymInt.__sub__(self, o)

    def __floordiv__(self, o):
        if self.v is None and isinstance(o, int) and o > 0:
            return BitLen(self.x, self.a + self.c * self.d, self.d * o, 0)
        return SymInt.__floordiv__(self, o)

    def __rshift__(self, k):
        return self // (1 << k) if isinstance(k, int) and k >= 0 else SymInt.__rshift__(self, k)

    def __le__(self, o):
        return self._le(int(o)) if isinstance(o, int) else SymInt.__le__(self, o)

    def __lt__(self, o):
        return self._le(o - 1) if isinstance(o, int) else SymInt.__lt__(self, o)

    def __gt__(self, o):
        return b_not(self._le(int(o))) if isinstance(o, int) else SymInt.__gt__(self, o)

    def __ge__(self, o):
        return b_not(self._le(o - 1)) if isinstance(o, int) else SymInt.__ge__(self, o)

    def __eq__(self, o):
        if isinstance(o, int):
            return mkbool(f_and([fof(self <= o), fof(self >= o)]))
        return SymInt.__eq__(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(concretize(self))


def as_int(k):
    if isinstance(k, (SymInt, SymBool)):
        return k.__index__()
    return k


def bitwise(a, b, f):
    la, ha = bounds(a.t)
    lb, hb = bounds(b.t)
    if la is None or lb is None or la < 0 or lb < 0 or ha is None or hb is None or min(ha, hb) > 255:
        raise Unsupported('symbolic bitwise')
    n = min(ha, hb).bit_length()
    tot = 0
    for i in range(n):
        x, y = (a >> i) & 1, (b >> i) & 1
        tot = tot + b2i(mkbool(f_and([fof(x == 1), fof(y == 1)]))) * (1 << i)
    return tot


def div_mod(a, b, mod_only=False):
    if isinstance(b, (float, SymFloat)) or isinstance(a, (float, SymFloat)):
        raise Unsupported('float divmod')
    if not isinstance(b, (int, SymInt, SymBool)) or not isinstance(a, (int, SymInt, SymBool)):
        return (NotImplemented, NotImplemented)
    if isinstance(b, SymBool):
        b = b2i(b)
    if isinstance(b, int):
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        ta = terms(a)
        if b < 0:
            q, r = div_mod(-a, -b)
            return q, -r
        if mod_only:
            return None, mod_const(ta, b)
        if degree(ta) > 1 or is_modulus(b):
            r = mod_const(ta, b)
            rest = p_norm(p_add(ta, terms(r), -1))
            if all(c % b == 0 for c in rest.values()):
                return mk({m: c // b for m, c in rest.items()}), r
            return floordiv_const(ta, b), r
        q = floordiv_const(ta, b)
        r = p_norm(p_add(ta, terms(q), -b))
        if [m for m in r if m]:
            add_fact(r, 0, b - 1)
        return q, mk(r)
    # symbolic divisor
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if b < 0:
        q, r = div_mod(-a, -b)
        return q, -r
    ta, tb = terms(a), b.t
    la, ha = bounds(ta)
    lb, hb = bounds(tb)
    if la is None or ha is None or hb is None or hb > 1 << 16:
        raise Unsupported('division by a symbolic integer')
    if la < 0:
        raise Unsupported('signed division by a symbolic integer')
    lb = max(lb, 1)
    key = ('dq', tuple(sorted(ta.items())), tuple(sorted(tb.items())))
    q = S.new('dq', (ta, tb), la // hb, ha // lb, key=key)
    qv = var_of(q)
    rkey = ('dr',) + key
    r = S.intern.get(rkey)
    if r is None:
        r = S.new('dr', None, 0, None, key=rkey)
        # remainder as an atom of its own keeps degrees low
        r.kind = 'var'
        r.lo, r.hi = 0, min(hb - 1, ha)
        S.fixed.pop(r.id, None)
        r.extra = 'derived'
        r.kind = 'dr'
        r.data = (ta, tb, q.id)
    rv = var_of(r)
    return qv, rv


def sym_pow(b, e, m=None):
    if isinstance(e, SymInt):
        e = concretize(e)
    if isinstance(e, SymBool):
        e = int(e)
    if isinstance(m, SymInt):
        m = concretize(m)
    if not isinstance(b, (SymInt, SymBool)):
        return pow(b, e, m) if m is not None else pow(b, e)
    b = b2i(b) if isinstance(b, SymBool) else b
    if m is None:
        if e < 0:
            raise Unsupported('negative power')
        if e > 16:
            raise Unsupported('power')
        r = 1
        for _ in range(e):
            r = r * b
        return r
    if e < 0:
        raise Unsupported('modular inverse by pow')
    if is_modulus(m) and e > 1000:
        from . import field
        return field.big_pow(b, e, m)
    if e <= 4:
        r = 1
        for _ in range(e):
            r = r * b
        return r % m
    r = 1
    base = b % m
    while e:
        if e & 1:
            r = (r * base) % m
        e >>= 1
        if e:
            base = (base * base) % m
    return r % m


# 'dr' atoms: remainder of a symbolic division, definition shared with 'dq'
_old_emit = emit_def


def emit_def(a, z, out):       # noqa: F811
    if a.kind == 'dr':
        ta, tb, q = a.data
        if a.lo is not None:
            out.append(z >= znum(a.lo))
        if a.hi is not None:
            out.append(z <= znum(a.hi))
        out.append(zpoly(ta, out) == zatom(q, out) * zpoly(tb, out) + z)
        return
    _old_emit(a, z, out)


_old_model_atom = Model._atom


def _model_atom(self, i):
    a = S.atoms[i]
    if a.kind == 'dr':
        ta, tb, q = a.data
        d = self.poly(tb)
        return self.poly(ta) % d if d else 0
    return _old_model_atom(self, i)


Model._atom = _model_atom


# --------------------------------------------------------------------------
# floats: exact rationals with bounded rounding error

class SymFloat(object):
    """A double, as a linear polynomial with rational coefficients."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def of(x):
        if isinstance(x, SymFloat):
            return x
        if isinstance(x, SymBool):
            x = b2i(x)
        if isinstance(x, SymInt):
            # int -> float conversion; exact below 2**53
            lo, hi = bounds(x.t)
            t = {m: Fraction(c) for m, c in x.t.items()}
            if lo is not None and hi is not None and -2 ** 53 <= lo and hi <= 2 ** 53:
                return SymFloat(t)
            return rounded(t)
        if isinstance(x, float):
            if x != x or x in (float('inf'), float('-inf')):
                raise Unsupported('non-finite float')
            return SymFloat(p_const(Fraction(x)))
        return SymFloat(p_const(Fraction(x)))

    def const(self):
        return not [m for m in self.t if m]

    def __add__(self, o):
        if not isinstance(o, (int, float, SymInt, SymFloat, SymBool)):
            return NotImplemented
        return rounded(p_add(self.t, SymFloat.of(o).t))
    __radd__ = __add__

    def __sub__(self, o):
        return rounded(p_add(self.t, SymFloat.of(o).t, -1))

    def __rsub__(self, o):
        return rounded(p_add(SymFloat.of(o).t, self.t, -1))

    def __neg__(self):
        return SymFloat(p_scale(self.t, Fraction(-1)))

    def __abs__(self):
        return self if self >= 0 else -self

    def __mul__(self, o):
        if not isinstance(o, (int, float, SymInt, SymFloat, SymBool)):
            return NotImplemented
        return rounded(p_mul(self.t, SymFloat.of(o).t))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymFloat.of(o)
        if not o.const():
            raise Unsupported('division by a symbolic float')
        c = o.t.get((), Fraction(0))
        if c == 0:
            raise ZeroDivisionError('float division by zero')
        return rounded(p_scale(self.t, 1 / c))

    def __rtruediv__(self, o):
        raise Unsupported('division by a symbolic float')

    def _cmp(self, o, k):
        if not isinstance(o, (int, float, SymInt, SymFloat, SymBool)):
            return NotImplemented
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            o = Fraction(10) ** 400 * (1 if o > 0 else -1)
            ot = p_const(o)
        else:
            ot = exact(o)
        d = p_add(self.t, ot, -1)
        f = {'le': lambda: f_le(d), 'ge': lambda: f_le(p_scale(d, -1)), 'eq': lambda: f_eq(d),
             'lt': lambda: f_not(f_le(p_scale(d, -1))), 'gt': lambda: f_not(f_le(d))}[k]()
        return mkbool(f)

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        r = self._cmp(o, 'eq')
        return r if r is NotImplemented else b_not(r)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return 7

    def _integral(self):
        """the integer this double is by its form, or None"""
        if all(Fraction(c).denominator == 1 for c in self.t.values()) and all(not S.atoms[i].real for m in self.t for i in m):
            return mk({m: int(c) for m, c in self.t.items()})
        return None

    def _round_atom(self):
        v = self._integral()
        if v is not None:
            return v
        # an integer plus less than one half
        whole, rest = {}, {}
        for m, c in self.t.items():
            if Fraction(c).denominator == 1 and all(not S.atoms[i].real for i in m):
                whole[m] = int(c)
            else:
                rest[m] = c
        lo, hi = bounds(rest)
        if lo is not None and hi is not None and -Fraction(1, 2) < lo and hi < Fraction(1, 2):
            return mk(whole)
        lo, hi = bounds(self.t)
        a = S.new('round', self.t, None if lo is None else math.floor(lo), None if hi is None else math.ceil(hi),
                  key=('round', tuple(sorted(self.t.items()))))
        return var_of(a)

    def round_exact(self):
        return self._round_atom()

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported('round to digits')
        return self._round_atom()

    def trunc(self):
        """int(x)"""
        v = self._integral()
        if v is not None:
            return v
        lo, hi = bounds(self.t)
        a = S.new('trunc', self.t, None if lo is None else math.floor(lo), None if hi is None else math.ceil(hi),
                  key=('trunc', tuple(sorted(self.t.items()))))
        return var_of(a)

    def floor(self):
        if self >= 0:
            return self.trunc()
        r = self.trunc()
        return r if r == self else r - 1

    def __repr__(self):
        return '<symbolic float>'

    def is_integer(self):
        return self == self.trunc()


class Exact(SymFloat):
    """A rational number; arithmetic does not round (oracles only)."""
    __slots__ = ()

    def __add__(self, o):
        return Exact(p_add(self.t, exact(o)))
    __radd__ = __add__

    def __sub__(self, o):
        return Exact(p_add(self.t, exact(o), -1))

    def __rsub__(self, o):
        return Exact(p_add(exact(o), self.t, -1))

    def __mul__(self, o):
        return Exact(p_mul(self.t, exact(o)))
    __rmul__ = __mul__

    def __neg__(self):
        return Exact(p_scale(self.t, Fraction(-1)))


def exact(o):
    """exact rational polynomial of a number, without conversion error"""
    if isinstance(o, SymFloat):
        return o.t
    if isinstance(o, SymBool):
        o = b2i(o)
    if isinstance(o, SymInt):
        return {m: Fraction(c) for m, c in o.t.items()}
    return p_const(Fraction(o))


def rounded(t):
    t = {m: Fraction(c) for m, c in t.items()}
    if not [m for m in t if m]:
        v = t.get((), Fraction(0))
        return v.numerator / v.denominator
    lo, hi = bounds(t)
    if lo is not None and hi is not None:
        mx = max(abs(lo), abs(hi))
        dens = 1
        for c in t.values():
            dens = dens * c.denominator // math.gcd(dens, c.denominator)
        allint = all(not S.atoms[i].real for m in t for i in m)
        if allint and dens & (dens - 1) == 0 and mx * dens <= 2 ** 53:
            return SymFloat(t)       # exactly representable
        e = mx * Fraction(1, 2 ** 53) + Fraction(1, 2 ** 1074)
        elo, ehi = -e, e
    else:
        elo = ehi = None
    a = S.new('err', t, elo, ehi, key=('err', tuple(sorted(t.items()))), real=True)
    r = p_add(t, {(a.id,): Fraction(1)})
    return SymFloat(r)


_emit2 = emit_def


def emit_def(a, z, out):       # noqa: F811
    if a.kind == 'trunc':
        x = zpoly(a.data, out)
        if a.lo is not None:
            out.append(z >= znum(a.lo))
        if a.hi is not None:
            out.append(z <= znum(a.hi))
        out.append(z3.Implies(x >= 0, z3.And(z3.ToReal(z) <= x, x < z3.ToReal(z) + 1)))
        out.append(z3.Implies(x < 0, z3.And(z3.ToReal(z) >= x, x > z3.ToReal(z) - 1)))
        return
    _emit2(a, z, out)


_matom2 = Model._atom


def _matom3(self, i):
    a = S.atoms[i]
    if a.kind == 'trunc':
        return math.trunc(self.poly(a.data))
    return _matom2(self, i)


Model._atom = _matom3


# --------------------------------------------------------------------------
# uninterpreted functions over byte strings

class App(object):
    def __init__(self, name, args, nout, real):
        self.name = name
        self.args = args          # list of lists of int-likes
        self.real = real
        self.outs = []
        self.done = False
        self.nout = nout

    def args_value(self, model):
        return tuple(bytes(int(model.val(x)) & 0xff for x in a) for a in self.args)

    def value(self, model):
        av = self.args_value(model)
        key = (self.name, av)
        v = model.uf.get(key)
        if v is not None:
            return v
        given = [model.base.get(a.id) for a in self.outs]
        if any(g is not None for g in given):
            rv = self.real(*av)
            v = tuple(g if g is not None else rv[i] for i, g in enumerate(given))
        else:
            v = tuple(self.real(*av))
        model.uf[key] = v
        return v

    def ackermann(self, out):
        if self.done:
            return
        self.done = True
        for other in S.uf_apps.get(self.name, []):
            if other is self:
                continue
            if [len(x) for x in other.args] != [len(x) for x in self.args]:
                continue
            if isinstance(other, App):
                if not other.done and other.outs:
                    pass
                eqs = [f_eq(p_add(terms(x), terms(y), -1)) for a, b in zip(self.args, other.args) for x, y in zip(a, b)]
                cond = f_and(eqs)
                if cond[0] == 'false' or quick(cond) is False:
                    continue
                cz = zform(cond, out)
                for i in range(self.nout):
                    z1 = zatom(self.outs[i].id, out)
                    z2 = zatom(other.outs[i].id, out) if not isinstance(other.outs[i], int) else \
                        (z3.IntVal(other.outs[i]) if S.backend == 'int' else z3.BitVecVal(other.outs[i], z1.size()))
                    out.append(z3.Implies(cz, z1 == z2))


def apply_uf(name, args, nout, real):
    """args: list of sequences of int-likes; returns list of nout int-likes."""
    args = [list(a) for a in args]
    apps = S.uf_apps.setdefault(name, [])
    if all(isinstance(x, int) for a in args for x in a):
        v = tuple(real(*[bytes(a) for a in args]))
        if not any(isinstance(p.outs[0], int) and p.args == args for p in apps):
            app = App(name, args, nout, real)
            app.outs = list(v)
            app.done = True
            earlier = [p for p in apps if [len(a) for a in p.args] == [len(a) for a in args]
                       and not isinstance(p.outs[0], int)]
            apps.append(app)
            # applications on variables made before this one: equal arguments, equal results
            for p in earlier:
                cond = f_and([f_eq(p_add(terms(x), p_const(-y))) for a, b in zip(p.args, args) for x, y in zip(a, b)])
                if cond[0] == 'false' or quick(cond) is False:
                    continue
                assume(f_or([f_not(cond), f_and([f_eq({(o.id,): 1, (): -w} if w else {(o.id,): 1})
                                                for o, w in zip(p.outs, v)])]))
        return list(v)
    key = ('app', name, tuple(tuple(tuple(sorted(terms(x).items())) for x in a) for a in args))
    app = S.intern.get(key)
    if app is None:
        # the same arguments written differently: the same results
        for p in apps[-12:]:
            if [len(a) for a in p.args] != [len(a) for a in args]:
                continue
            diff = [f_eq(p_add(terms(x), terms(y), -1)) for a, b in zip(p.args, args) for x, y in zip(a, b)
                    if terms(x) != terms(y)]
            if len(diff) <= 8 and not any(quick(d) is False for d in diff) and entailed(f_and(diff)):
                S.intern[key] = p
                return [var_of(a) if isinstance(a, Atom) else a for a in p.outs]
        app = App(name, args, nout, real)
        S.intern[key] = app
        app.outs = [S.new('uf', (app, i), 0, 255, name='%s_%d' % (name, i)) for i in range(nout)]
        apps.append(app)
        S.uf_order.append(app)
    return [var_of(a) if isinstance(a, Atom) else a for a in app.outs]
