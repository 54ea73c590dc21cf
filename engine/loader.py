"""Loads the library's current source under the symbolic builtins.

Nothing is cached on disk: every run parses /repo's working tree again.
"""
import ast
import os
import sys
import types

from . import core, hooks, stubs

REPO = os.environ.get('BITFORGE_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOTS = {'bitforge': REPO, 'harness': VERIF}


def call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


class Transform(ast.NodeTransformer):
    def __init__(self, modname, record):
        self.mod = modname
        self.stack = []
        self.record = record

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice) and not (
                isinstance(n.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in n.slice.elts)):
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
                return n        # constant index: nothing symbolic about it
            return ast.copy_location(call('__sym_getitem__', n.value, n.slice), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(call('__sym_mod__', n.left, n.right), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            op, r = n.ops[0], n.comparators[0]
            if isinstance(op, ast.In):
                return ast.copy_location(call('__sym_in__', n.left, r), n)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=call('__sym_in__', n.left, r)), n)
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and (r.value is True or r.value is False):
                c = call('__sym_is__', n.left, r)
                if isinstance(op, ast.IsNot):
                    c = ast.UnaryOp(op=ast.Not(), operand=c)
                return ast.copy_location(c, n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in hooks.METHODS:
            n.func = ast.copy_location(call('__sym_meth__', f.value, ast.Constant(f.attr)), f)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                if v.conversion != -1:
                    val = call('__sym_conv__', val, ast.Constant(chr(v.conversion)))
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple(elts=[val, spec], ctx=ast.Load()))
        return ast.copy_location(call('__sym_fstr__', *parts), n)

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None or (isinstance(n.type, ast.Name) and n.type.id == 'BaseException'):
            n.body.insert(0, ast.Expr(call('__sym_reraise__')))
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(call('__sym_tick__')))
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(call('__sym_tick__')))
        return n

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        if self.record:
            i = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and \
                isinstance(n.body[0].value.value, str) else 0
            n.body.insert(i, ast.Expr(call('__sym_enter__', ast.Constant(self.mod + ':' + '.'.join(self.stack)))))
        self.stack.pop()
        return n

    def visit_Lambda(self, n):
        self.generic_visit(n)
        if self.record:
            name = '%s:%s' % (self.mod, '.'.join(self.stack + ['<lambda:%d>' % n.lineno]))
            n.body = ast.copy_location(ast.Subscript(
                value=ast.Tuple(elts=[call('__sym_enter__', ast.Constant(name)), n.body], ctx=ast.Load()),
                slice=ast.Constant(1), ctx=ast.Load()), n.body)
        return n


class Loader(object):
    def __init__(self):
        self.mods = {}
        self.builtins = hooks.make_builtins(self.imp)
        self.stub = stubs.modules(self)
        self.saved = None

    def find(self, name):
        root = ROOTS.get(name.split('.')[0])
        if root is None:
            return None, False
        base = os.path.join(root, *name.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py'), True
        if os.path.exists(base + '.py'):
            return base + '.py', False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent = None
        if '.' in name:
            parent = self.load(name.rpartition('.')[0])
            if name in self.mods:
                return self.mods[name]
        path, pkg = self.find(name)
        if path is None:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['_sym_module'] = True
        self.mods[name] = m
        src = open(path, encoding='utf-8').read()
        tree = ast.parse(src, path)
        tree = Transform(name, name.startswith('bitforge')).visit(tree)
        ast.fix_missing_locations(tree)
        try:
            exec(compile(tree, path, 'exec', dont_inherit=True), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if parent is not None:
            setattr(parent, name.rpartition('.')[2], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            pkg = pkg[:len(pkg) - (level - 1)]
            name = '.'.join(pkg + ([name] if name else []))
        root = name.split('.')[0]
        if root in ROOTS:
            m = self.load(name)
            if not fromlist:
                return self.mods[root]
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    if self.find(name + '.' + f)[0]:
                        self.load(name + '.' + f)
            return m
        if name in self.stub or root in self.stub:
            if fromlist:
                return self.stub[name]
            return self.stub[root]
        return __import__(name, globals, locals, fromlist, 0)

    # -- module state: every path starts from the state after import

    def snapshot(self):
        seen = {}

        def snap(o, depth=0):
            if id(o) in seen or depth > 6:
                return
            if isinstance(o, types.ModuleType):
                if not getattr(o, '_sym_module', False):
                    return
                seen[id(o)] = (o, 'ns', dict(vars(o)))
                for v in list(vars(o).values()):
                    snap(v, depth + 1)
            elif isinstance(o, type):
                if not str(getattr(o, '__module__', '')).startswith('bitforge'):
                    return
                seen[id(o)] = (o, 'cls', dict(vars(o)))
                for v in list(vars(o).values()):
                    snap(v, depth + 1)
            elif isinstance(o, (staticmethod, classmethod)):
                snap(o.__func__, depth)
            elif isinstance(o, types.FunctionType):
                seen[id(o)] = (o, 'fn', (o.__defaults__, dict(o.__dict__)))
                for v in (o.__defaults__ or ()):
                    snap(v, depth + 1)
                for v in (o.__kwdefaults__ or {}).values():
                    snap(v, depth + 1)
                for c in (o.__closure__ or ()):
                    try:
                        v = c.cell_contents
                    except ValueError:
                        continue
                    if id(c) not in seen:
                        seen[id(c)] = (c, 'cell', v)
                    snap(v, depth + 1)
            elif hasattr(o, 'cache_clear') and hasattr(o, '__wrapped__'):
                seen[id(o)] = (o, 'lru', None)
                snap(o.__wrapped__, depth + 1)
            elif isinstance(o, dict):
                if o is self.builtins:
                    return
                seen[id(o)] = (o, 'dict', dict(o))
                for v in list(o.values()):
                    snap(v, depth + 1)
            elif isinstance(o, list):
                seen[id(o)] = (o, 'list', list(o))
                for v in o:
                    snap(v, depth + 1)
            elif isinstance(o, set):
                seen[id(o)] = (o, 'set', set(o))
            elif isinstance(o, hooks.SBytearray):
                seen[id(o)] = (o, 'ba', list(o.e))
            elif isinstance(o, tuple):
                seen[id(o)] = (o, 'none', None)
                for v in o:
                    snap(v, depth + 1)
            elif str(getattr(type(o), '__module__', '')).startswith('bitforge') and hasattr(o, '__dict__'):
                seen[id(o)] = (o, 'obj', dict(o.__dict__))
                for v in list(o.__dict__.values()):
                    snap(v, depth + 1)
        for m in list(self.mods.values()):
            snap(m)
        self.saved = list(seen.values())

    def restore(self):
        for o, kind, v in self.saved or ():
            if kind == 'ns' or kind == 'obj':
                d = o.__dict__
                if d != v if False else True:
                    for k in list(d):
                        if k not in v:
                            del d[k]
                    for k, x in v.items():
                        if d.get(k, o) is not x:
                            d[k] = x
            elif kind == 'cls':
                for k in list(vars(o)):
                    if k not in v:
                        delattr(o, k)
                for k, x in v.items():
                    if vars(o).get(k, o) is not x:
                        try:
                            setattr(o, k, x)
                        except (AttributeError, TypeError):
                            pass
            elif kind == 'fn':
                o.__defaults__ = v[0]
                if o.__dict__ or v[1]:
                    o.__dict__.clear()
                    o.__dict__.update(v[1])
            elif kind == 'cell':
                if o.cell_contents is not v:
                    o.cell_contents = v
            elif kind == 'lru':
                o.cache_clear()
            elif kind == 'dict':
                if len(o) != len(v) or any(o.get(k, self) is not x for k, x in v.items()):
                    o.clear()
                    o.update(v)
            elif kind == 'list':
                if len(o) != len(v) or any(a is not b for a, b in zip(o, v)):
                    o[:] = v
            elif kind == 'set':
                if o != v:
                    o.clear()
                    o.update(v)
            elif kind == 'ba':
                o.e = list(v)
