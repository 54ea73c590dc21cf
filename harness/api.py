"""Registration of harness functions; the same functions run symbolically and concretely."""

UNITS = []


class Unit(object):
    def __init__(self, prop, name, fn, params, tier, opts):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.params = params
        self.tier = tier
        self.opts = opts

    @property
    def key(self):
        return self.prop + '/' + self.name


def label(params):
    out = []
    for k in sorted(params):
        out.append('%s=%s' % (k, params[k]))
    return ','.join(out)


def unit(prop, cases=({},), more=(), thorough=(), **opts):
    """Register fn(h, **case) once per case; `more` are further cases, `thorough` cases only run in the thorough tier."""
    def deco(fn):
        for tier, cs in (('quick', cases), ('quick', more), ('thorough', thorough)):
            for c in cs:
                n = fn.__name__ + ('[' + label(c) + ']' if c else '')
                UNITS.append(Unit(prop, n, fn, c, tier, opts))
        return fn
    return deco


def load_all():
    import harness.all
    return UNITS


class Part(object):
    """h with its own names for inputs, except the shared ones, which are the same value in every part"""
    def __init__(self, h, prefix, shared, store):
        self.__dict__.update(_h=h, _p=prefix, _s=shared, _t=store)

    def __getattr__(self, name):
        f = getattr(self._h, name)
        if name not in ('int', 'bool', 'bytes', 'text', 'choose', 'float'):
            return f

        def draw(n, *a, **k):
            if n not in self._s:
                return f(self._p + n, *a, **k)
            key = (name, n, repr(a), repr(sorted(k.items())))
            if key not in self._t:
                self._t[key] = f(self._p + n, *a, **k)
            return self._t[key]
        return draw


def again(prop, name, doc, steps, **opts):
    """Register a unit that runs several harness functions one after the other in one process:
    steps are lists of (fn, params), one list per case; `shared` names the inputs that all steps have in common."""
    shared = opts.pop('shared', ())
    more = opts.pop('thorough', ())
    for tier, cs in (('quick', steps), ('thorough', more)):
        for case, todo in enumerate(cs):
            def run(h, todo=todo):
                store = {}
                for i, (fn, params) in enumerate(todo):
                    fn(Part(h, 's%d.' % i, shared, store), **params)
            run.__doc__ = doc
            run.__name__ = name
            UNITS.append(Unit(prop, '%s[%d]' % (name, case), run, {}, tier, opts))
