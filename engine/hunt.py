"""Looks for concrete inputs, on the real library, that realize what the solver found.

Used only where the encoding says that an assertion can fail but its model does not
carry over to the real code (uninterpreted functions: curve points, hashes), or where
a path could not be encoded.  Nothing found here is ever evidence that a property
holds; anything found is replayed like every other counterexample.

stdin: {"prop", "unit", "bases": [inputs...], "seconds", "seed"}; stdout: a job or null.
"""
import json
import os
import random
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import concrete  # noqa

SPECIAL = (0, 1, 2, 3, 4, 5, 16, 17, 0x30, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x50, 0x51, 0x60, 0x7f, 0x80, 0x81, 0xfd, 0xfe, 0xff)


class HuntH(concrete.ConcH):
    def __init__(self, base, rnd):
        concrete.ConcH.__init__(self, {}, None)
        self.base = base or {}
        self.r = rnd

    def near(self, name, p=0.5):
        return self.base[name] if name in self.base and self.r.random() < p else None

    def an_int(self, lo, hi):
        r = self.r
        if lo >= hi:
            return lo
        k = r.random()
        if k < 0.2:
            return r.choice((lo, hi, lo + 1, hi - 1))
        if k < 0.5:
            v = (1 << r.randint(0, max(1, max(abs(lo), abs(hi)).bit_length()))) + r.choice((-1, 0, 1))
            v = v if r.random() < 0.7 or lo >= 0 else -v
            if lo <= v <= hi:
                return v
        if k < 0.65:
            v = lo + r.getrandbits(r.randint(1, max(1, (hi - lo).bit_length())))
            if v <= hi:
                return v
        return r.randint(lo, hi)

    def a_byte(self, lo, hi):
        if self.r.random() < 0.4:
            v = self.r.choice(SPECIAL)
            if lo <= v <= hi:
                return v
        return self.r.randint(lo, hi)

    def int(self, name, lo, hi):
        v = self.near(name)
        if v is None:
            v = self.an_int(lo, hi)
        elif self.r.random() < 0.2:
            v += self.r.choice((-1, 1))
        v = min(max(v, lo), hi)
        self.inputs[name] = v
        return v

    def bool(self, name):
        v = self.near(name)
        v = bool(self.r.getrandbits(1)) if v is None else bool(v)
        self.inputs[name] = v
        return v

    def bytes(self, name, n, lo=0, hi=255):
        v = self.near(name)
        r = self.r
        if v is None or len(v) != n:
            k = r.random()
            if k < 0.5:
                v = [r.randint(lo, hi) for _ in range(n)]
            elif k < 0.75:
                v = [self.a_byte(lo, hi) for _ in range(n)]
            else:
                z, f = r.randint(0, n), self.a_byte(lo, hi)
                v = [f] * z + [r.randint(lo, hi) for _ in range(n - z)]
        else:
            v = list(v)
            for _ in range(r.randint(0, 2) if n else 0):
                v[r.randrange(n)] = self.a_byte(lo, hi)
        self.inputs[name] = v
        return bytes(v)

    def text(self, name, n, alphabet=None, lo=32, hi=126):
        v = self.near(name)
        r = self.r
        a, b = (lo, hi) if alphabet is None else (0, len(alphabet) - 1)
        if v is None or len(v) != n:
            v = [r.randint(a, b) for _ in range(n)]
        else:
            v = list(v)
            for _ in range(r.randint(0, 2) if n else 0):
                v[r.randrange(n)] = r.randint(a, b)
        self.inputs[name] = v
        return concrete.ConcH.text(self, name, n, alphabet, lo, hi)

    def choose(self, name, options):
        options = list(options)
        v = self.near(name, 0.7)
        if v is None or not 0 <= v < len(options):
            v = self.r.randrange(len(options))
        self.inputs[name] = v
        return options[v]

    def float(self, name, lo, hi):
        r = self.r
        k = r.random()
        if k < 0.3:
            v = r.uniform(lo, hi)
        elif k < 0.6:
            v = self.an_int(int(lo), int(hi)) / r.choice((1.0, 10.0, 100.0, 1e3, 1e5, 1e8))
        else:
            v = r.randint(0, 10 ** r.randint(1, 12)) / 10.0 ** r.randint(0, 10)
        v = float(min(max(v, lo), hi))
        self.inputs[name] = {'float': v.hex()}
        return v


def main():
    sys.dont_write_bytecode = True
    a = json.load(sys.stdin)
    units = concrete.load_units()
    u = units[(a['prop'], a['unit'])]
    rnd = random.Random(a['seed'])
    end = time.time() + a['seconds']
    bases = a['bases'] or [None]
    n = 0

    def on_alarm(*x):
        raise concrete.Timeout()
    signal.signal(signal.SIGALRM, on_alarm)
    found = None
    while time.time() < end and found is None:
        n += 1
        h = HuntH(rnd.choice(bases) if rnd.random() < 0.7 else None, rnd)
        saved = concrete.patch_rng(h) if u.opts.get('rng') else []
        bad = False
        try:
            signal.setitimer(signal.ITIMER_REAL, max(0.5, min(10.0, end - time.time())))
            u.fn(h, **u.params)
        except concrete.Violation:
            bad = True
        except (concrete.Skip, concrete.Done, concrete.Timeout):
            pass
        except Exception:
            bad = True
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            concrete.unpatch(saved)
        if bad:
            rng = [[k, 'bytes' if isinstance(v, bytes) else 'int', list(v) if isinstance(v, bytes) else v] for k, v in h.rng_log]
            found = {'prop': a['prop'], 'unit': a['unit'], 'inputs': h.inputs, 'rng': rng}
    json.dump({'found': found, 'tried': n}, sys.stdout)


main()
