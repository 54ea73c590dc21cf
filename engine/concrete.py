"""Runs harness units on the real library with concrete inputs (plain Python, no solver)."""
import hashlib
import hmac
import json
import os
import random
import secrets
import signal
import sys
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BITFORGE_REPO', '/repo')

P = 2 ** 256 - 2 ** 32 - 977
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
G = (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798,
     0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)


def ec_add(p, q):
    if p is None:
        return q
    if q is None:
        return p
    if p[0] == q[0]:
        if (p[1] + q[1]) % P == 0:
            return None
        l = 3 * p[0] * p[0] * pow(2 * p[1], -1, P) % P
    else:
        l = (q[1] - p[1]) * pow(q[0] - p[0], -1, P) % P
    x = (l * l - p[0] - q[0]) % P
    return x, (l * (p[0] - x) - p[1]) % P


def ec_mul(k, pt=G):
    k %= N
    r = None
    while k:
        if k & 1:
            r = ec_add(r, pt)
        pt = ec_add(pt, pt)
        k >>= 1
    return r


def der_parse(sig):
    """(r, s) of a strict DER signature or None"""
    sig = bytes(sig)
    if len(sig) < 8 or sig[0] != 0x30 or sig[1] != len(sig) - 2 or sig[2] != 2:
        return None
    lr = sig[3]
    r = sig[4:4 + lr]
    rest = sig[4 + lr:]
    if len(rest) < 3 or rest[0] != 2 or rest[1] != len(rest) - 2:
        return None
    s = rest[2:]
    for x in (r, s):
        if not x or x[0] & 0x80 or (len(x) > 1 and x[0] == 0 and not x[1] & 0x80):
            return None
    return int.from_bytes(r, 'big'), int.from_bytes(s, 'big')


class Violation(BaseException):
    pass


class Skip(BaseException):
    """an assumption of the harness does not hold for these inputs"""


class Done(BaseException):
    pass


class Timeout(BaseException):
    pass


class ConcH(object):
    symbolic = False

    def __init__(self, inputs, rng):
        self.inputs = inputs
        self.rng = list(rng or [])
        self.rng_log = []
        self.sizes = []
        self.checks = 0
        self.known = set()
        import bitforge
        self.bf = bitforge
        self.mods = {k: v for k, v in sys.modules.items() if k == 'bitforge' or k.startswith('bitforge.')}

    def int(self, name, lo, hi):
        v = self.inputs[name]
        if not lo <= v <= hi:
            raise Skip()
        return v

    def bool(self, name):
        return bool(self.inputs[name])

    def bytes(self, name, n, lo=0, hi=255):
        v = self.inputs[name]
        if len(v) != n:
            raise Skip()
        return bytes(v)

    def text(self, name, n, alphabet=None, lo=32, hi=126):
        v = self.inputs[name]
        return ''.join(chr(x) if alphabet is None else alphabet[x] for x in v)

    def choose(self, name, options):
        return list(options)[self.inputs[name]]

    def float(self, name, lo, hi):
        v = float.fromhex(self.inputs[name]['float'])
        if not lo <= v <= hi:
            raise Skip()
        return v

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, msg, known=None):
        self.checks += 1
        if not c:
            if known is not None and known[1]:
                self.known.add(known[0])
                raise Done()
            raise Violation(msg)

    def fail(self, msg):
        raise Violation(msg)

    def attempt(self, fn, *a, **k):
        try:
            return fn(*a, **k), None
        except Exception as e:
            return None, e

    def reach(self, label):
        pass

    def stop(self):
        raise Done()

    def unsupported(self, why):
        raise Skip()

    def sig_valid(self, secret, sig, digest):
        rs = der_parse(sig)
        if rs is None:
            return False
        r, s = rs
        if not (0 < r < N and 0 < s < N):
            return False
        Q = ec_mul(secret)
        w = pow(s, -1, N)
        z = int.from_bytes(bytes(digest), 'big')
        pt = ec_add(ec_mul(z * w), ec_mul(r * w, Q))
        return pt is not None and pt[0] % N == r

    def sig_low_s(self, sig):
        rs = der_parse(sig)
        return rs is not None and rs[1] <= N // 2

    def sig_random_nonce(self, sig):
        return True

    def rng_kinds(self):
        return [k for k, _ in self.rng_log]

    def rng_sizes(self):
        return list(self.sizes)

    def rng_values(self):
        return [v for _, v in self.rng_log]

    def same_text(self, a, b):
        return a == b

    def hash(self, name, data):
        return hashlib.new(name, bytes(data)).digest()

    def hmac(self, name, key, data):
        return hmac.new(bytes(key), bytes(data), name).digest()

    def point(self, k):
        return ec_mul(k) or (None, None)

    def is_square(self, v):
        return pow(v % P, (P - 1) // 2, P) == 1

    def congruent(self, a, b, m):
        return (a - b) % m == 0

    def float_eq(self, a, b):
        return a == b

    def exact_le(self, a, b):
        return Fraction(a) <= Fraction(b)

    def frac(self, a):
        return Fraction(a)

    def plain_decimal(self, text):
        return all(c in '0123456789.' for c in text) and text.count('.') <= 1 and any(c != '.' for c in text)

    def hmac_limit(self, n):
        pass


def patch_rng(h):
    """random sources hand out the scripted values; what is drawn is logged"""
    saved = []

    def put(obj, name, fn):
        saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, fn)

    def draw(kind, typ, lo=None, hi=None, n=None):
        h.sizes.append(hi - lo + 1 if typ == 'int' else 256 ** n)
        if h.rng:
            k, t, v = h.rng.pop(0)
            if typ == 'int' and t == 'int' and lo <= v <= hi:
                h.rng_log.append((kind, v))
                return v
            if typ == 'bytes' and t == 'bytes' and len(v) == n:
                h.rng_log.append((kind, bytes(v)))
                return bytes(v)
        if typ == 'int':
            v = orig_sys(lo, hi)
        else:
            v = orig_urandom(n)
        h.rng_log.append((kind, v))
        return v
    orig_urandom = os.urandom
    src = random.SystemRandom()
    orig_sys = lambda lo, hi: lo + secrets_below(hi - lo + 1)

    def secrets_below(n):
        k = n.bit_length()
        while True:
            r = int.from_bytes(orig_urandom((k + 7) // 8), 'big') >> (-k % 8)
            if r < n:
                return r

    def mk_int(kind, lohi):
        def f(self, *a):
            lo, hi = lohi(*a)
            if lo > hi:
                raise ValueError('empty range')
            return draw(kind, 'int', lo, hi)
        return f
    kinds = [('randint', lambda a, b: (a, b)),
             ('randrange', lambda a, b=None, s=1: (0, a - 1) if b is None else (a, b - 1)),
             ('getrandbits', lambda n: (0, (1 << n) - 1))]
    for name, lohi in kinds:
        put(random.SystemRandom, name, mk_int('system', lohi))
        f = mk_int('pseudo', lohi)
        put(random, name, (lambda f: lambda *a: f(None, *a))(f))
        put(random.Random, name, f) if name != 'getrandbits' else None
    put(os, 'urandom', lambda n: draw('system', 'bytes', n=n))
    put(secrets, 'randbelow', lambda n: draw('system', 'int', 0, n - 1))
    put(secrets, 'randbits', lambda n: draw('system', 'int', 0, (1 << n) - 1))
    put(secrets, 'token_bytes', lambda n=32: draw('system', 'bytes', n=n))
    return saved


def unpatch(saved):
    for o, n, v in reversed(saved):
        setattr(o, n, v)


def run_job(units, job, limit=20):
    u = units.get((job['prop'], job['unit']))
    if u is None:
        return {'outcome': 'error', 'msg': 'no such unit'}
    h = ConcH(job['inputs'], job.get('rng'))

    def on_alarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    scripted = bool(u.opts.get('rng'))
    saved = patch_rng(h) if scripted else []
    try:
        u.fn(h, **u.params)
        out = {'outcome': 'ok'}
    except Violation as e:
        out = {'outcome': 'violation', 'msg': str(e)}
    except Done:
        out = {'outcome': 'ok'}
    except (Skip, KeyError) as e:
        if isinstance(e, KeyError) and not (e.args and e.args[0] in ('',)):
            # an input the concrete run needs but the path never created, or a real KeyError
            if e.args and isinstance(e.args[0], str) and h_missing(h, e):
                out = {'outcome': 'skip', 'msg': 'missing input %s' % e}
            else:
                out = {'outcome': 'violation', 'msg': 'unexpected KeyError: %s' % e}
        else:
            out = {'outcome': 'skip'}
    except Timeout:
        out = {'outcome': 'violation', 'msg': 'does not terminate within %d s' % limit}
    except RecursionError as e:
        out = {'outcome': 'violation', 'msg': 'unexpected RecursionError'}
    except Exception as e:
        try:
            s = str(e)
        except Exception:
            s = '?'
        out = {'outcome': 'violation', 'msg': 'unexpected %s: %s' % (type(e).__name__, s[:300])}
    finally:
        signal.alarm(0)
        unpatch(saved)
    out['known'] = sorted(h.known)
    out['checks'] = h.checks
    return out


def h_missing(h, e):
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return tb.tb_frame.f_code.co_filename == __file__


def load_units():
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    import bitforge
    assert os.path.realpath(os.path.dirname(bitforge.__file__)) == os.path.realpath(os.path.join(REPO, 'bitforge')), bitforge.__file__
    from harness import api
    return {(u.prop, u.name): u for u in api.load_all()}


def main():
    sys.dont_write_bytecode = True
    arg = sys.argv[1]
    data = json.load(sys.stdin if arg == '-' else open(arg))
    units = load_units()
    jobs = data if isinstance(data, list) else [data]
    res = []
    for j in jobs:
        res.append(run_job(units, j))
    if arg == '-':
        json.dump(res, sys.stdout)
        return 0
    for j, r in zip(jobs, res):
        print(j['prop'], j['unit'], json.dumps(j['inputs'])[:400])
        print('  ->', r['outcome'], r.get('msg', ''))
    return 1 if any(r['outcome'] == 'violation' for r in res) else 0


if __name__ == '__main__':
    sys.exit(main())
