"""Loads /repo's current source: parses every module and executes its top-level code in the interpreter."""
import ast
import os
import z3
from .values import *          # noqa: F401,F403
from .builtins import Builtins, ABC_REGISTRY, PRELUDE, BuiltinMixin
from .interp import Interp, Scope, Result
from .evalx import EvalMixin
from .objects import ObjectMixin

STDLIB_ABC = ['/usr/lib/pypy3.9/_collections_abc.py']
ABC_CLASSES = ('Hashable', 'Iterable', 'Iterator', 'Reversible', 'Sized', 'Container', 'Collection', 'Callable', 'Set',
               'MutableSet', 'Mapping', 'MappingView', 'KeysView', 'ItemsView', 'ValuesView', 'MutableMapping',
               'Sequence', 'MutableSequence')


def canonical(text, flags=0):
    """The structure of a regular expression: character classes as sets, groups with their numbers and names."""
    import re
    import re._parser as sp
    import re._constants as sc
    tree = sp.parse(text, flags)

    def chars(av):
        out = set()
        for op, x in av:
            out.add((str(op), str(x)))
        if ('CATEGORY', 'CATEGORY_WORD') in out:
            out = set(o for o in out if not (o[0] == 'LITERAL' and (chr(int(o[1])).isalnum() or o[1] == '95')))
        return ('IN',) + tuple(sorted(out))

    def walk(x):
        if isinstance(x, sp.SubPattern):
            return tuple(walk(y) for y in x)
        if isinstance(x, (tuple, list)):
            x = tuple(x)
            if len(x) == 2 and x[0] == sc.IN:
                return chars(x[1])
            if len(x) == 2 and x[0] == sc.LITERAL:
                return chars([x])
            return tuple(walk(y) for y in x)
        return str(x)
    return (walk(tree), tuple(sorted(tree.state.groupdict.items())))


class Engine(EvalMixin, ObjectMixin, BuiltinMixin, Interp):
    pass


class Loader(object):
    def __init__(self, repo='/repo', package='pilo'):
        self.repo, self.package = repo, package
        self.bi = Builtins()
        self.harness_module = ModuleVal('harness')
        self.pattern_ids = {}
        self.modules = {}
        self.classes = []
        self.loaded = False
        self.sources = {}

    def pattern_id(self, text, flags=32):
        """A term naming what a pattern matches: patterns of the same structure are the same."""
        try:
            key = (canonical(text, flags), flags)
        except Exception:          # (not one this host parses)
            key = (text, flags)
        return z3.IntVal(self.pattern_ids.setdefault(key, 10 ** 9 + len(self.pattern_ids)))

    # ------------------------------------------------------------ wiring
    def install(self, it):
        it.B = self.bi.B
        it.builtins = self.bi.names
        it.abc_registry = ABC_REGISTRY
        it.loader = self
        it.import_module = lambda name, sc: self.import_module(it, name)
        it.import_from = lambda name, level, sc: self.import_from(it, name, level, sc)
        it.module_member = lambda m, n: self.module_member(it, m, n)
        it.register_class = self.classes.append
        it.contracts = {}
        if not self.loaded:
            self.load(it)
        it.prelude = self.prelude.ns

    def fresh_state(self, it):
        it.alloc = 0
        it.by_id = {}
        it.handles = {}
        it.embedded = set()
        it.ncache = {}
        it.axiom_done = {}
        it.handling = []
        it.cur_module_stack = []
        it.pending_class = None
        it.gen_hooks = []

    def load(self, it):
        it.res = Result()
        it.bound = None
        it.deadline = float('inf')
        it.trail = []
        it.memo = {}
        it.sites = {}
        it.harness = None
        self.snap = None
        it.prelude = {}
        it.start_path()
        self.prelude = self.run_source(it, PRELUDE, '_prelude')
        it.prelude = self.prelude.ns
        self.load_abc(it)
        self.import_module(it, self.package)
        base = os.path.join(self.repo, self.package)
        for root, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(root, f), self.repo)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    self.import_module(it, rel)
        if len(it.trail):
            raise Unsupported('module loading depends on symbolic values')
        self.loaded = True
        self.snapshot(it)

    def load_abc(self, it):
        src = None
        for p in STDLIB_ABC:
            if os.path.exists(p):
                src = open(p).read()
                self.sources['_collections_abc'] = p
                break
        tree = ast.parse(src)
        body = [n for n in tree.body if isinstance(n, ast.ClassDef) and n.name in ABC_CLASSES]
        m = ModuleVal('_collections_abc')
        m.ns.update({'__name__': '_collections_abc', 'ABCMeta': self.bi.B['type'],
                     'abstractmethod': self.bi.modules['abc'].ns['abstractmethod'],
                     '_check_methods': BuiltinFn('_check_methods', lambda i, a, k: None),
                     'GenericAlias': None, '_CallableGenericAlias': None})
        sc = Scope(m)
        for n in body:
            n.keywords = [k for k in n.keywords if k.arg != 'metaclass']
            n.body = [s for s in n.body if not (isinstance(s, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id in ('__class_getitem__', '__slots__', '__hash__') for t in s.targets))]
            n.body = [s for s in n.body if not (isinstance(s, ast.FunctionDef) and s.name in
                                                ('__subclasshook__', '__class_getitem__', '_hash'))] or [ast.Pass()]
            # abstract methods carry no behaviour; drop them so that they never shadow a concrete one
            n.body = [s for s in n.body if not (isinstance(s, ast.FunctionDef) and any(
                isinstance(d, ast.Name) and d.id == 'abstractmethod' for d in s.decorator_list))] or [ast.Pass()]
            it.st(n, sc)
        self.modules['_collections_abc'] = m
        for c in m.ns.values():
            if isinstance(c, ClassVal):
                c.stdlib = True
        cm = self.bi.modules['collections']
        ab = self.bi.mod('collections.abc')
        for n in ABC_CLASSES:
            cm.ns[n] = m.ns[n]
            ab.ns[n] = m.ns[n]
        cm.ns['abc'] = ab

    def run_source(self, it, text, name):
        m = ModuleVal(name)
        m.ns['__name__'] = name
        self.modules[name] = m
        sc = Scope(m)
        it.cur_module_stack.append(m)
        for n in ast.parse(text).body:
            it.st(n, sc)
        it.cur_module_stack.pop()
        return m

    # ------------------------------------------------------------ imports
    def path_of(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None, False

    def import_module(self, it, name):
        if name in self.modules:
            return self.modules[name]
        if name.split('.')[0] == self.package:
            if '.' in name:
                parent = self.import_module(it, name.rsplit('.', 1)[0])
                if name in self.modules:
                    return self.modules[name]
            path, pkg = self.path_of(name)
            if path is None:
                it.raise_exc('ImportError', 'No module named %s' % name)
            m = ModuleVal(name)
            m.is_pkg = pkg
            m.ns['__name__'] = name
            m.ns['__file__'] = path
            m.ns['__doc__'] = None
            self.modules[name] = m
            self.sources[name] = path
            with open(path) as fo:
                tree = ast.parse(fo.read(), path)
            sc = Scope(m)
            prev, it.cur = it.cur, None
            it.cur_module_stack.append(m)
            try:
                for n in tree.body:
                    it.st(n, sc)
            finally:
                it.cur_module_stack.pop()
                it.cur = prev
            if '.' in name:
                self.modules[name.rsplit('.', 1)[0]].ns[name.rsplit('.', 1)[1]] = m
            return m
        if name in self.bi.modules:
            return self.bi.modules[name]
        # an unmodelled library: its members leave the supported subset when used
        m = ModuleVal(name, getter=lambda n: BuiltinFn('%s.%s' % (name, n), self.unmodelled(name, n)))
        self.bi.modules[name] = m
        return m

    @staticmethod
    def unmodelled(mod, n):
        def f(it, a, k):
            raise Unsupported('%s.%s is not modelled' % (mod, n))
        return f

    def import_from(self, it, name, level, sc):
        if not level:
            return self.import_module(it, name)
        m = sc.module
        base = m.name if getattr(m, 'is_pkg', False) else m.name.rsplit('.', 1)[0]
        for _ in range(level - 1):
            base = base.rsplit('.', 1)[0]
        return self.import_module(it, base + ('.' + name if name else ''))

    def module_member(self, it, m, n):
        if n in m.ns:
            return m.ns[n]
        if m.getter is not None:
            return m.getter(n)
        if getattr(m, 'is_pkg', False):
            path, pkg = self.path_of(m.name + '.' + n)
            if path is not None:
                return self.import_module(it, m.name + '.' + n)
        if m.name in self.bi.modules:
            return BuiltinFn('%s.%s' % (m.name, n), self.unmodelled(m.name, n))
        it.raise_exc('AttributeError', 'module %s has no attribute %s' % (m.name, n))

    # ------------------------------------------------------------ snapshots
    def all_classes(self):
        return list(self.bi.B.values()) + self.snap_classes

    def snapshot(self, it):
        self.snap_classes = list(self.classes)
        funcs = []
        seen = set()

        def visit(v):
            if isinstance(v, FuncVal) and id(v) not in seen:
                seen.add(id(v))
                funcs.append(v)
        for c in self.all_classes():
            for v in c.ns.values():
                visit(v.f if isinstance(v, (ClassM, StaticM)) else v)
        for m in self.modules.values():
            for v in m.ns.values():
                visit(v)
        self.snap = {
            'alloc': it.alloc,
            'objs': [(o, dict(o.attrs), o.data.copy() if hasattr(o.data, 'copy') else o.data, o.ghost)
                     for o in it.by_id.values() if isinstance(o, Obj)],
            'handles': dict(it.handles),
            'by_id': dict(it.by_id),
            'classes': [(c, dict(c.ns), list(c.subclasses)) for c in self.all_classes()],
            'modules': [(m, dict(m.ns)) for m in list(self.modules.values()) + list(self.bi.modules.values())],
            'module_names': dict(self.modules),
            'bi_modules': dict(self.bi.modules),
            'funcs': [(f, dict(f.attrs)) for f in funcs],
        }

    def restore(self, it):
        self.fresh_state(it)
        s = self.snap
        if s is None:
            return
        it.alloc = s['alloc']
        it.handles = dict(s['handles'])
        it.by_id = dict(s['by_id'])
        for o, attrs, data, ghost in s['objs']:
            o.attrs = dict(attrs)
            o.data = data.copy() if hasattr(data, 'copy') else data
            o.ghost = ghost
            it.by_label[o.label] = o
        for c, ns, subs in s['classes']:
            c.ns.clear()
            c.ns.update(ns)
            c.subclasses[:] = subs
        for m, ns in s['modules']:
            m.ns.clear()
            m.ns.update(ns)
        self.modules = dict(s['module_names'])
        self.bi.modules = dict(s['bi_modules'])
        self.classes[:] = self.snap_classes
        for f, attrs in s['funcs']:
            f.attrs = dict(attrs)
