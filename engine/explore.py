"""Exhaustive path exploration of one harness unit, with the checks decided by the solver."""
import random
import time
import traceback

import z3

from . import core, field, hooks, seq
from .core import SymInt, SymBool, SymFloat, Control, Infeasible, Unsupported, Budget, State, Model, Stats, fof, f_not, f_and, \
    TRUE, FALSE, mkbool, var_of


class Stop(Control):
    """End this path quietly (assumption violated, expected end)."""


class SymH(object):
    symbolic = True

    def __init__(self, eng):
        self.eng = eng
        self.bf = eng.loader.mods['bitforge']
        self.mods = eng.loader.mods

    # -- inputs
    def _in(self, name, val):
        S = core.S
        if name in S.inputs:
            raise AssertionError('duplicate input ' + name)
        S.inputs[name] = val
        S.input_order.append(name)
        return val

    def int(self, name, lo, hi):
        if lo == hi:
            return self._in(name, lo)
        a = core.S.new('var', None, lo, hi, name=name)
        return self._in(name, var_of(a))

    def bool(self, name):
        a = core.S.new('var', None, 0, 1, name=name)
        v = var_of(a)
        self._in(name, v)
        return v == 1

    def bytes(self, name, n, lo=0, hi=255):
        e = []
        for i in range(n):
            a = core.S.new('var', None, lo, hi, name='%s_%d' % (name, i))
            e.append(var_of(a))
        self._in(name, list(e))
        return seq.mk_bytes(e)

    def text(self, name, n, alphabet=None, lo=32, hi=126):
        """n characters of the alphabet (a str), or of code points lo..hi"""
        e, idx = [], []
        for i in range(n):
            if alphabet is None:
                a = core.S.new('var', None, lo, hi, name='%s_%d' % (name, i))
                v = var_of(a)
                idx.append(v)
                e.append(v)
            else:
                a = core.S.new('var', None, 0, len(alphabet) - 1, name='%s_%d' % (name, i))
                v = var_of(a)
                idx.append(v)
                e.append(core.table_lookup(v, {j: ord(c) for j, c in enumerate(alphabet)}) if isinstance(v, SymInt) else ord(alphabet[v]))
        self._in(name, idx)
        return seq.mk_str(e)

    def choose(self, name, options):
        """one of the options: forks"""
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        if not isinstance(i, int):
            i = core.concretize(i)
        return options[i]

    def float(self, name, lo, hi):
        """any double in [lo, hi], as a rational"""
        from fractions import Fraction
        a = core.S.new('var', None, Fraction(lo), Fraction(hi), name=name, real=True)
        v = SymFloat({(a.id,): Fraction(1)})
        self._in(name, v)
        return v

    # -- assertions
    def assume(self, c):
        core.assume(fof(c))

    def check(self, c, msg, known=None):
        S = core.S
        S.checks += 1
        f = fof(c)
        if S.pos < len(S.trace):
            core.assert_(f)
            return
        q = core.quick(f)
        if q is True:
            S.stats.folded += 1
            self.eng.checked += 1
            return
        g = f_not(f)
        if known is not None:
            kid, region = known
            rf = fof(region)
            r, m = core.query(f_and([g, rf]))
            if r == 'sat':
                self.eng.known.add(kid)
            g = f_and([g, f_not(rf)])
        r, m = core.query(g)
        self.eng.checked += 1
        if r != 'unsat':
            if r == 'unknown':
                self.eng.unknown_checks += 1
            else:
                self.eng.candidate(msg, g, m)
        if known is not None:
            f = core.f_or([f, fof(known[1])])
        # continue on the side where the assertion holds
        if S.model is not None and not S.model.holds(f):
            r, m = core.query(f)
            if r == 'unsat':
                raise Stop()
            S.model = m
        core.assert_(f)

    def fail(self, msg):
        self.check(False, msg)
        raise Stop()

    def attempt(self, fn, *a, **k):
        """(value, None) or (None, exception)"""
        try:
            return fn(*a, **k), None
        except Exception as e:
            return None, e

    def reach(self, label):
        self.eng.labels.add(label)

    def stop(self):
        raise Stop()

    def unsupported(self, why):
        raise Unsupported(why)

    # -- oracles that differ between the two worlds
    def sig_valid(self, secret, sig, digest):
        """is sig a valid DER signature of digest under secret's public key"""
        from . import stubs
        return stubs.sig_ok(secret, 'secp256k1', sig, digest, 'sigdecode_der')

    def sig_low_s(self, sig):
        for s in core.S.sigs:
            if len(s['sig']) == len(seq.blist(sig)) and seq.seq_eq(s['sig'], seq.blist(sig)) is True:
                return s['enc'].endswith('canonize')
        return False

    def sig_random_nonce(self, sig):
        for s in core.S.sigs:
            if len(s['sig']) == len(seq.blist(sig)) and seq.seq_eq(s['sig'], seq.blist(sig)) is True:
                return s['k'] is None or s['k'] == 'rfc6979'
        return False

    def rng_kinds(self):
        return [k for k, _ in core.S.rng]

    def rng_sizes(self):
        """how many values each draw could have given"""
        return list(core.S.rng_sizes)

    def rng_values(self):
        return [v for _, v in core.S.rng]

    def same_text(self, a, b):
        return a == b

    def hash(self, name, data):
        from . import stubs
        return stubs.Hash(name, seq.blist(data)).digest()

    def hmac(self, name, key, data):
        from . import stubs
        return stubs.Hmac(key, data, name).digest()

    def point(self, k):
        """affine coordinates of k*G on secp256k1 (oracle)"""
        return field.AbsPoint(k, None, None).pair()

    def is_square(self, v):
        """is v a nonzero quadratic residue modulo secp256k1's p (oracle)"""
        t = core.canon_mod(core.terms(v), field.P)
        if not [m for m in t if m]:
            return pow(t.get((), 0), (field.P - 1) // 2, field.P) == 1
        return field.status(t, field.P) == 1

    def congruent(self, a, b, m):
        return not core.canon_mod(core.terms(a - b), m) if not isinstance(a - b, int) else (a - b) % m == 0

    def float_eq(self, a, b):
        return a == b

    def exact_le(self, a, b):
        return a <= b

    def frac(self, a):
        """exact rational value of a number"""
        return core.Exact(core.exact(a))

    def plain_decimal(self, text):
        """a text that is a decimal number without exponent"""
        e = seq.slist(text)
        if len(e) == 1 and isinstance(e[0], seq.Opaque):
            v = e[0].value
            if e[0].kind.startswith('fixed') or e[0].kind == 'int':
                return v >= 0
            if e[0].kind == 'float':
                return core.mkbool(core.f_or([fof(v == 0), core.f_and([fof(v >= 0.0001), fof(v < 1e16)])]))
            raise core.Unsupported('format')
        if any(isinstance(x, seq.Opaque) for x in e):
            raise core.Unsupported('format')
        dots = 0
        for x in e:
            if x == 46:
                dots += 1
            elif not (48 <= x <= 57):
                return False
        return len(e) > dots and dots <= 1

    def hmac_limit(self, n):
        core.S.hmac_limit = n


class Engine(object):
    def __init__(self, loader, unit, tier, deadline, max_witness=6):
        self.loader = loader
        self.unit = unit
        self.tier = tier
        self.deadline = deadline
        self.stats = Stats()
        self.paths = 0
        self.infeasible = 0
        self.checked = 0
        self.unknown_checks = 0
        self.candidates = []
        self.cand_keys = {}
        self.unsupported = []
        self.known = set()
        self.labels = set()
        self.witnesses = []
        self.unwitnessed = 0
        self.wit_time = 0.0
        self.notes = set()
        self.complete = True
        self.truncated = False
        self.max_witness = max_witness
        self.rnd = random.Random(1)
        self.samples = []
        self.steps = 0

    # -- concrete inputs out of a model
    def candidate(self, msg, g, m, exc=None):
        n = self.cand_keys.get(msg, 0)
        self.cand_keys[msg] = n + 1
        if n >= 4 or len(self.candidates) >= 24:
            return
        inp = self.extract(g)
        if inp is None:
            # could not be made concrete: give the raw model a chance
            if m is not None:
                try:
                    inp = self.inputs_of(m)
                except Control:
                    inp = None
        if inp is not None:
            self.candidates.append({'msg': msg, 'inputs': inp[0], 'rng': inp[1]})
        else:
            self.candidates.append({'msg': msg, 'inputs': None, 'rng': None})

    def inputs_of(self, m):
        S = core.S

        def val(v):
            if isinstance(v, list):
                return [val(x) for x in v]
            if isinstance(v, SymFloat):
                x = m.poly(v.t)
                return {'float': float(x).hex() if not isinstance(x, int) else float(x).hex()}
            x = m.val(v)
            return int(x) if not isinstance(x, float) else x
        inputs = {k: val(v) for k, v in S.inputs.items()}
        rng = []
        for kind, v in S.rng:
            if isinstance(v, (int, SymInt)):
                rng.append([kind, 'int', int(m.val(v))])
            else:
                rng.append([kind, 'bytes', [int(m.val(x)) for x in seq.blist(v)]])
        return inputs, rng

    def extract(self, g, tries=40):
        """Concrete inputs satisfying path ∧ g with the real hash values, or None."""
        S = core.S
        core.sync()
        s = S.solver
        out = []
        z = core.zform(g, out)
        # definitions go in outside the scopes that are popped below
        if S.backend != 'bv':
            for vs in list(S.inputs.values()) + [a for app in S.uf_order for a in app.args]:
                for v in (vs if isinstance(vs, list) else [vs]):
                    if isinstance(v, SymInt):
                        core.zpoly(v.t, out)
        for c in out:
            s.add(c)
        t0 = time.time()
        allf = S.path + [g]
        base = s.num_scopes()
        try:
            for attempt in range(tries):
                if time.time() - t0 > 20:
                    return None
                s.push()
                s.add(z)
                if attempt:
                    self.randomise(s)
                m = self.refine(s)
                while s.num_scopes() > base:
                    s.pop()
                if m is not None:
                    try:
                        if all(m.holds(f) for f in allf):
                            return self.inputs_of(m)
                    except (Control, ZeroDivisionError):
                        pass
                if not self.needs_search() and attempt >= 3:
                    return None
            return None
        finally:
            while s.num_scopes() > base:
                s.pop()

    def needs_search(self):
        S = core.S
        return bool(S.points) or any(a.kind in ('gen', 'err', 'round', 'res') for a in S.atoms) or bool(S.opaque)

    def randomise(self, s):
        S = core.S
        for name in S.input_order:
            if self.rnd.random() < 0.25:
                continue
            vs = S.inputs[name]
            cons = []
            for v in (vs if isinstance(vs, list) else [vs]):
                if not isinstance(v, SymInt) or S.backend == 'bv':
                    continue
                lo, hi = core.bounds(v.t)
                if lo is None or hi is None or lo >= hi:
                    continue
                out = []
                zz = core.zpoly(v.t, out)
                for c in out:
                    s.add(c)
                cons.append(zz == self.rnd.randint(lo, hi))
            if not cons:
                continue
            s.push()
            for c in cons:
                s.add(c)
            if s.check() != z3.sat:
                s.pop()
                # pin a random subset instead
                for c in cons:
                    if len(cons) > 1 and self.rnd.random() < 0.5:
                        s.push()
                        s.add(c)
                        if s.check() != z3.sat:
                            s.pop()

    def refine(self, s):
        """Fix hash applications, in order, to their real values."""
        S = core.S
        base = s.num_scopes()
        try:
            for app in list(S.uf_order):
                for k in range(6):
                    if s.check() != z3.sat:
                        return None
                    m = core.get_model()
                    av = app.args_value(m)
                    rv = list(app.real(*av))
                    out = []
                    pin = []
                    for a, vals in zip(app.args, av):
                        for x, v in zip(a, vals):
                            if isinstance(x, SymInt):
                                pin.append(core.zpoly(core.p_add(x.t, core.p_const(-v)), out) == 0)
                    fixed = list(pin)
                    for a, v in zip(app.outs, rv):
                        if a.id in S.zcache:
                            fixed.append(core.zatom(a.id, out) == v)
                    for c in out:
                        s.add(c)
                    s.push()
                    for c in fixed:
                        s.add(c)
                    if s.check() == z3.sat:
                        break
                    s.pop()
                    if pin:
                        s.add(z3.Not(z3.And(pin)))
                else:
                    return None
            if s.check() != z3.sat:
                return None
            return core.get_model()
        except Control:
            return None
        finally:
            while s.num_scopes() > base:
                s.pop()

    # -- exploration
    def run(self):
        u = self.unit
        backend = u.opts.get('backend', 'int')
        max_paths = u.opts.get('max_paths', 20000)
        work = [([], None)]
        while work:
            if time.time() > self.deadline or self.paths + self.infeasible >= max_paths:
                self.complete = False
                break
            if len(self.candidates) >= 24:
                self.complete = False
                break
            trace, base = work.pop()
            S = State(list(trace), Model(base or {}) if (base is not None or not trace) else None, backend=backend,
                      stats=self.stats, timeout=u.opts.get('timeout', 20000), deadline=self.deadline)
            S.checks = 0
            core.set_state(S)
            self.loader.restore()
            saved = None
            hooks.Ticker.n = 0
            hooks.Ticker.limit = u.opts.get('ticks', 400000)
            h = SymH(self)
            ended = 'ok'
            try:
                core.W = u.opts.get('width', 256)
                if u.opts.get('ec', True):
                    saved = field.install(self.loader.mods)
                elif u.opts.get('inverse'):
                    saved = field.install_inverse(self.loader.mods)
                u.fn(h, **u.params)
            except Stop:
                ended = 'stop'
            except Infeasible:
                ended = 'infeasible'
            except Budget:
                self.complete = False
                ended = 'budget'
            except Unsupported as e:
                ended = 'unsupported'
                self.note_unsupported(str(e))
            except Control as e:
                ended = 'unsupported'
                self.note_unsupported(repr(e))
            except RecursionError as e:
                ended = 'unsupported'
                self.note_unsupported('recursion')
            except AssertionError as e:
                if 'duplicate input' in str(e):
                    raise
                ended = 'exception'
                self.exception(e)
            except Exception as e:
                ended = 'exception'
                self.exception(e)
            finally:
                if saved:
                    for m, k, v in reversed(saved):
                        setattr(m, k, v)
            self.steps += hooks.Ticker.n
            self.notes |= S.notes
            self.truncated = self.truncated or S.truncated
            if ended == 'infeasible':
                self.infeasible += 1
            else:
                self.paths += 1
            if ended in ('ok', 'stop') and S.checks:
                if len(self.witnesses) < self.max_witness and time.time() < self.deadline and self.wit_time < 10:
                    t0 = time.time()
                    try:
                        w = self.extract(TRUE)
                    except (Control, z3.Z3Exception):
                        w = None
                    self.wit_time += time.time() - t0
                    if w is not None:
                        self.witnesses.append({'inputs': w[0], 'rng': w[1]})
                    else:
                        self.unwitnessed += 1
            for alt in S.alternatives:
                work.append(alt)
        core.set_state(None)
        return self.result()

    def note_unsupported(self, why):
        inp = None
        try:
            if sum(1 for x in self.unsupported if x['inputs'] is not None) < 12:
                inp = self.extract(TRUE, tries=6)
        except (Control, Exception):
            inp = None
        self.unsupported.append({'why': why[:200], 'inputs': inp[0] if inp else None, 'rng': inp[1] if inp else None})

    def exception(self, e):
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        for fr in reversed(tb):
            where = '%s:%d' % (fr.filename, fr.lineno)
            break
        msg = 'unexpected %s at %s: %s' % (type(e).__name__, where, safe_str(e))
        key = 'unexpected ' + type(e).__name__ + where
        n = self.cand_keys.get(key, 0)
        self.cand_keys[key] = n + 1
        if n >= 3:
            return
        try:
            inp = self.extract(TRUE)
        except (Control, z3.Z3Exception):
            inp = None
        self.candidates.append({'msg': msg, 'inputs': inp[0] if inp else None, 'rng': inp[1] if inp else None})

    def result(self):
        st = self.stats
        return {
            'unit': self.unit.name, 'prop': self.unit.prop, 'complete': self.complete, 'paths': self.paths,
            'infeasible': self.infeasible, 'checked': self.checked, 'unknown_checks': self.unknown_checks,
            'candidates': self.candidates, 'unsupported': self.unsupported, 'known': sorted(self.known),
            'labels': sorted(self.labels), 'witnesses': self.witnesses, 'unwitnessed': self.unwitnessed,
            'notes': sorted(self.notes), 'truncated': self.truncated, 'steps': self.steps,
            'queries': st.queries, 'sat': st.sat, 'unsat': st.unsat, 'unknown': st.unknown, 'solver_s': st.time,
            'decisions': st.decisions, 'forks': st.forks, 'folded': st.folded,
            'functions': sorted(hooks.ENTERED),
        }


def safe_str(e):
    try:
        return str(e)[:160]
    except BaseException:
        return '?'
