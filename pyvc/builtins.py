"""Built-in types and functions, and models of the standard-library modules pilo imports.

Everything here is part of the trusted base: these are the assumed contracts of CPython/PyPy and of the
external libraries (listed in the evidence of every run).  Interpreted stdlib code (collections.abc
mixins) and the prelude are executed, not assumed.
"""
import ast
import z3
from .values import *          # noqa: F401,F403
from .objects import WithMeta

#: host exceptions hierarchy: name -> base
EXCS = [
    ('BaseException', 'object'), ('Exception', 'BaseException'), ('SystemExit', 'BaseException'),
    ('KeyboardInterrupt', 'BaseException'), ('GeneratorExit', 'BaseException'),
    ('ArithmeticError', 'Exception'), ('OverflowError', 'ArithmeticError'), ('ZeroDivisionError', 'ArithmeticError'),
    ('FloatingPointError', 'ArithmeticError'),
    ('AssertionError', 'Exception'), ('AttributeError', 'Exception'), ('EOFError', 'Exception'),
    ('ImportError', 'Exception'), ('ModuleNotFoundError', 'ImportError'), ('LookupError', 'Exception'),
    ('IndexError', 'LookupError'), ('KeyError', 'LookupError'), ('MemoryError', 'Exception'),
    ('NameError', 'Exception'), ('UnboundLocalError', 'NameError'), ('OSError', 'Exception'),
    ('RuntimeError', 'Exception'), ('NotImplementedError', 'RuntimeError'), ('RecursionError', 'RuntimeError'),
    ('StopIteration', 'Exception'), ('SyntaxError', 'Exception'), ('TypeError', 'Exception'),
    ('ValueError', 'Exception'), ('UnicodeError', 'ValueError'), ('UnicodeDecodeError', 'UnicodeError'),
    ('Warning', 'Exception'), ('DeprecationWarning', 'Warning'), ('UserWarning', 'Warning'),
]

ABC_REGISTRY = {
    'Sequence': ('list', 'tuple', 'str', 'bytes', 'range'),
    'MutableSequence': ('list',),
    'Mapping': ('dict',),
    'MutableMapping': ('dict',),
    'Set': ('set', 'frozenset'), 'MutableSet': ('set',),
    'Iterable': ('list', 'tuple', 'str', 'bytes', 'dict', 'set', 'frozenset', 'generator', 'range'),
    'Iterator': ('generator',),
    'Container': ('list', 'tuple', 'str', 'bytes', 'dict', 'set', 'frozenset', 'range'),
    'Collection': ('list', 'tuple', 'str', 'bytes', 'dict', 'set', 'frozenset', 'range'),
    'Sized': ('list', 'tuple', 'str', 'bytes', 'dict', 'set', 'frozenset', 'range'),
    'Number': ('int', 'float', 'bool', 'Decimal'),
    'Integral': ('int', 'bool'), 'Real': ('int', 'bool', 'float'),
    'Callable': ('function', 'method', 'type'),
}

PRELUDE = '''
def sum(it, start=0):
    total = start
    for x in it:
        total = total + x
    return total


def any(it):
    for x in it:
        if x:
            return True
    return False


def all(it):
    for x in it:
        if not x:
            return False
    return True


def reduce(f, seq, *init):
    it = iter(seq)
    if init:
        acc = init[0]
        first = True
    else:
        acc = None
        first = False
    for x in it:
        if first:
            acc = f(acc, x)
        else:
            acc = x
            first = True
    if not first:
        raise TypeError('reduce() of empty sequence with no initial value')
    return acc


def _map1(f, it):
    out = []
    for x in it:
        out.append(f(x))
    return out


def _filter1(f, it):
    out = []
    for x in it:
        if f is None:
            if x:
                out.append(x)
        elif f(x):
            out.append(x)
    return out


def _minmax(items, key, pick_max):
    best = None
    bk = None
    started = False
    for x in items:
        k = x if key is None else key(x)
        if not started:
            best = x
            bk = k
            started = True
        elif (k > bk) if pick_max else (k < bk):
            best = x
            bk = k
    if not started:
        raise ValueError('empty sequence')
    return best


def _insertion_sort(items, key, reverse):
    out = []
    keys = []
    for x in items:
        k = x if key is None else key(x)
        i = len(out)
        while i > 0 and ((keys[i - 1] < k) if reverse else (k < keys[i - 1])):
            i = i - 1
        out.insert(i, x)
        keys.insert(i, k)
    return out


def _chain(*its):
    out = []
    for it in its:
        out.extend(it)
    return out


def _takewhile(p, it):
    out = []
    for x in it:
        if not p(x):
            break
        out.append(x)
    return out
'''

RE_MATCH = fn('re_match', INT, STR, STR, BOOL)        # pattern id, method, string
RE_GROUP = fn('re_group', INT, STR, V, V)             # pattern id, string, group
RE_GROUPF = fn('re_full_group', INT, STR, V, V)       # the same of a full match
RE_HASGROUP = fn('re_hasgroup', INT, V, BOOL)
RE_START = fn('re_start', INT, STR, STR, V, INT)      # pattern id, method, string, group
RE_END = fn('re_end', INT, STR, STR, V, INT)
RE_LAST = fn('re_lastindex', INT, STR, STR, V)
DT_OK = fn('strptime_ok', STR, STR, STR, BOOL)        # kind, text, format
DT_VAL = fn('strptime_val', STR, STR, STR, V)
ISO_OK = fn('iso8601_ok', STR, BOOL)
ISO_VAL = fn('iso8601_val', STR, V)
DATEOF = fn('datetime_date', V, V)
STRFT = fn('strftime', V, STR, STR)
DEC_OK = fn('decimal_accepts', V, BOOL)
DEC_VAL = fn('decimal_of', V, V)
UUID_OK = fn('uuid_accepts', V, BOOL)
UUID_VAL = fn('uuid_of', V, V)
STRIP = fn('str_strip', STR, STR, STR)
STRFN = fn('str_fn', STR, STR, STR, STR)
SPLITLINES = fn('str_splitlines', STR, SEQ)
JOIN = fn('str_join', STR, SEQ, STR)
COUNT = fn('str_count', STR, STR, INT)


def host(name):
    return type(name, (), {})


class Builtins(object):
    """Builds the built-in classes once; all of them live as long as the loader."""

    def __init__(self):
        self.B = {}
        self.names = {}
        self.modules = {}
        B = self.B
        obj = self.cls('object', [], object)
        obj.bases = []
        for n, b, h in [
            ('type', ['object'], type), ('NoneType', ['object'], type(None)), ('int', ['object'], int),
            ('float', ['object'], float), ('str', ['object'], str), ('bytes', ['object'], bytes),
            ('list', ['object'], list), ('dict', ['object'], dict), ('set', ['object'], set),
            ('frozenset', ['object'], frozenset), ('tuple', ['object'], tuple), ('function', ['object'], host('function')),
            ('method', ['object'], host('method')), ('generator', ['object'], host('generator')),
            ('module', ['object'], host('module')), ('property', ['object'], property),
            ('classmethod', ['object'], classmethod), ('staticmethod', ['object'], staticmethod),
            ('super', ['object'], super), ('range', ['object'], range), ('complex', ['object'], complex),
            ('slice', ['object'], slice), ('bytearray', ['object'], bytearray),
        ]:
            self.cls(n, b, h)
        self.cls('bool', ['int'], bool)
        for n, b in EXCS:
            self.cls(n, [b], host(n))
        for n in B:
            self.names[n] = B[n]
        for n in ('NoneType', 'function', 'method', 'generator', 'module'):
            del self.names[n]
        self.names['IOError'] = self.names['EnvironmentError'] = B['OSError']
        self.object_methods()
        self.functions()
        self.str_methods()
        self.list_methods()
        self.dict_methods()
        self.set_methods()
        self.misc_methods()
        self.stdlib()
        self.names['super'] = BuiltinFn('super', self.f_super)
        self.names['NotImplemented'] = ModuleVal('NotImplemented')
        self.names['Ellipsis'] = ModuleVal('Ellipsis')
        self.names['__debug__'] = True
        self.names['__build_class__'] = None

    def cls(self, name, bases, h, ns=None):
        c = ClassVal(name, [self.B[b] if isinstance(b, str) else b for b in bases], ns if ns is not None else {}, h)
        self.B[name] = c
        return c

    def m(self, cls, name=None):
        c = self.B[cls]

        def deco(f):
            n = name or f.__name__.lstrip('_') if name is None else name
            c.ns[n] = BuiltinFn('%s.%s' % (cls, n), f)
            return f
        return deco

    def f(self, name):
        def deco(f):
            self.names[name] = BuiltinFn(name, f)
            return f
        return deco

    # ------------------------------------------------------------ object / type
    def object_methods(self):
        B = self.B

        @self.m('object', '__new__')
        def new(it, a, k):
            c = a[0]
            o = it.new(c)
            it.init_payload(o, c)
            return o

        @self.m('object', '__init__')
        def init(it, a, k):
            o = a[0]
            if (a[1:] or k):
                n = o.cls.lookup('__new__') if isinstance(o, Obj) else MISSING
                if isinstance(n, BuiltinFn) and isinstance(o.cls.lookup('__init__'), BuiltinFn):
                    it.raise_exc('TypeError', '%s() takes no arguments' % o.cls.name)

        @self.m('object', '__setattr__')
        def setattr_(it, a, k):
            it.set_attr_raw(a[0], a[1], a[2])

        @self.m('object', '__init_subclass__')
        def init_subclass(it, a, k):
            return None
        B['object'].ns['__doc__'] = None

        @self.m('type', '__new__')
        def tnew(it, a, k):
            if len(a) == 2:
                return it.type_of(a[1])
            meta, name, bases, d = a
            bases = it.to_host_list(bases)
            h = it.ghost.get('new_class')
            if h is not None and isinstance(d, Obj) and isinstance(d.data, DictData) and d.data.items is None:
                return h(it, meta, name, bases, d)          # (a namespace of any size: by contract)
            if meta is B['type']:
                win = next((b.meta for b in bases if isinstance(b, ClassVal) and b.meta is not None), None)
                if win is not None:
                    return it.make_class(name, bases, it.host_dict(d), win, it.current_module())
                meta = None
            mod, node = it.pending_class[:2] if it.pending_class else (it.current_module(), None)
            it.pending_class = None
            return it.create_class(name, bases, it.host_dict(d), meta, mod, node)

        @self.m('type', '__init__')
        def tinit(it, a, k):
            return None

        @self.m('type', '__call__')
        def tcall(it, a, k):
            return it.instantiate(a[0], a[1:], k)

        @self.m('BaseException', '__init__')
        def einit(it, a, k):
            a[0].data = tuple(a[1:])

        @self.m('BaseException', 'with_traceback')
        def wtb(it, a, k):
            return a[0]

        @self.m('NoneType', '__new__')
        def nnew(it, a, k):
            return None

    def f_super(self, it, a, k):
        if len(a) == 2:
            return SuperV(a[0], a[1])
        raise Unsupported('super() with %d arguments' % len(a))

    # ------------------------------------------------------------ functions
    def functions(self):
        B = self.B
        f = self.f

        @f('len')
        def len_(it, a, k):
            return it.length(a[0])

        @f('isinstance')
        def isinstance_(it, a, k):
            return it.isinstance_(a[0], a[1])

        @f('issubclass')
        def issubclass_(it, a, k):
            if not isinstance(a[0], ClassVal):
                if isinstance(a[0], Sym):
                    raise Unsupported('issubclass of an unknown value')
                it.raise_exc('TypeError', 'issubclass() arg 1 must be a class')
            ts = a[1] if isinstance(a[1], tuple) else (a[1],)
            return any(it.issubclass_(a[0], t) for t in ts)

        @f('getattr')
        def getattr_(it, a, k):
            n = it.narrow(a[1])
            if isinstance(n, Sym):
                h = it.ghost.get('getattr_dynamic')
                if h is not None:
                    return h(it, a[0], n, a[2] if len(a) > 2 else MISSING)
                raise Unsupported('getattr with a symbolic name')
            if not isinstance(n, str):
                it.raise_exc('TypeError', 'getattr(): attribute name must be string')
            return it.getattr(a[0], n, *(a[2:3]))

        @f('hasattr')
        def hasattr_(it, a, k):
            n = it.narrow(a[1])
            if isinstance(n, Sym):
                try:
                    getattr_(it, [a[0], n], {})
                except PyRaise as e:
                    if it.exc_matches(e.exc, B['AttributeError']):
                        return False
                    raise
                return True
            return it.getattr(a[0], n, POISON) is not POISON

        @f('setattr')
        def setattr_(it, a, k):
            if not isinstance(a[1], str):
                raise Unsupported('setattr with a symbolic name')
            it.setattr(a[0], a[1], a[2])

        @f('delattr')
        def delattr_(it, a, k):
            it.delattr(a[0], a[1])

        @f('callable')
        def callable_(it, a, k):
            x = it.narrow(a[0])
            if isinstance(x, (FuncVal, BuiltinFn, BoundMethod, ClassVal)):
                return True
            if isinstance(x, Obj):
                return x.cls.lookup('__call__') is not MISSING
            if is_prim(x) or isinstance(x, (tuple, IterV, ModuleVal)):
                return False
            if isinstance(x, Sym):
                if x.cls is not None:
                    return x.cls.lookup('__call__') is not MISSING
                if x.kind != 'V':
                    return False
                return it.lift(z3.And(V.is_ref(x.t), CALLABLE(x.t)))
            raise Unsupported('callable(%r)' % (x,))

        @f('iter')
        def iter_(it, a, k):
            return it.iterate(a[0])

        @f('next')
        def next_(it, a, k):
            x = a[0]
            if isinstance(x, IterV):
                n = x.n
                more = x.pos < n if isinstance(n, int) else it.branch(z3.IntVal(x.pos) < n)
                if not more:
                    if len(a) > 1:
                        return a[1]
                    it.raise_exc('StopIteration')
                x.pos += 1
                return x.get(x.pos - 1)
            raise Unsupported('next() of %r' % (x,))

        @f('enumerate')
        def enumerate_(it, a, k):
            src = it.iterate(a[0])
            start = k.get('start', a[1] if len(a) > 1 else 0)

            def idx(j):
                return it.lift(z3.IntVal(j) + it.int_term(start)) if isinstance(j, int) else it.lift(j + it.int_term(start))
            r = IterV(src.n, lambda j: (idx(j), src.get(j)), src=src.src, off=src.off)
            r.under = src.seq or src.under
            if hasattr(src, 'src_n'):
                r.src_n = src.src_n
                r.src_len = getattr(src, 'src_len', None)
            return r

        @f('reversed')
        def reversed_(it, a, k):
            x = a[0]
            if isinstance(x, Obj) and isinstance(x.cls.lookup('__reversed__'), FuncVal) and \
                    x.cls.lookup('__reversed__').module.name != '_collections_abc':
                return it.iterate(it.call(x.cls.lookup('__reversed__'), [x]))
            src = it.iterate(x)
            n = src.n
            seq = list(reversed(src.seq)) if src.seq is not None and all(c[0] == 'e' for c in src.seq) else None
            r = IterV(n, (lambda j: src.get(n - 1 - j)) if isinstance(n, int) else
                      (lambda j: src.get(z3.simplify(n - 1 - (z3.IntVal(j) if isinstance(j, int) else j)))),
                      src=src.src, seq=seq)
            if hasattr(src, 'src_n'):
                r.src_n = src.src_n
                r.src_len = getattr(src, 'src_len', None)
            return r

        @f('zip')
        def zip_(it, a, k):
            its = [it.iterate(x) for x in a]
            ns = [x.n for x in its]
            if all(isinstance(n, int) for n in ns):
                n = min(ns) if ns else 0
                vals = [tuple(x.get(j) for x in its) for j in range(n)]
                return IterV(n, lambda j: vals[j], seq=[('e', v) for v in vals])
            ts = [z3.IntVal(n) if isinstance(n, int) else n for n in ns]
            m = ts[0]
            for t in ts[1:]:
                if t.eq(m) or it.entails(t == m):
                    continue
                m = z3.If(t < m, t, m)
            return IterV(z3.simplify(m), lambda j: tuple(x.get(j) for x in its))

        @f('range')
        def range_(it, a, k):
            a = [it.narrow(x) for x in a]
            if len(a) == 1:
                lo, hi, st = 0, a[0], 1
            elif len(a) == 2:
                lo, hi, st = a[0], a[1], 1
            else:
                lo, hi, st = a
            for x in (lo, hi, st):
                if not isinstance(x, (int, Sym)):
                    it.raise_exc('TypeError', 'range() needs integers')
                if isinstance(x, Sym) and x.kind != 'Int':
                    raise Unsupported('range over %r' % (x,))
            if all(isinstance(x, int) for x in (lo, hi, st)):
                r = range(lo, hi, st)
                return IterV(len(r), lambda j: r[j], seq=[('e', v) for v in r])
            if st != 1 and st != -1:
                raise Unsupported('symbolic range step')
            lt, ht = it.int_term(lo), it.int_term(hi)
            d = ht - lt if st == 1 else lt - ht
            n = z3.simplify(z3.If(d > 0, d, z3.IntVal(0)))
            if it.entails(d >= 0):
                n = z3.simplify(d)
            return IterV(n, lambda j: it.lift(lt + j if st == 1 else lt - j))
        self.names['xrange'] = self.names['range']

        @f('id')
        def id_(it, a, k):
            x = a[0]
            if isinstance(x, (Obj,)):
                return x.oid
            if isinstance(x, (ClassVal, FuncVal, BuiltinFn, ModuleVal, BoundMethod)):
                return it.handle(x)
            if isinstance(x, Sym) and x.kind == 'V' and x.cls is not None:
                it.assume(V.is_ref(x.t))
                return it.lift(V.rid(x.t))
            raise Unsupported('id()')

        @f('repr')
        def repr_(it, a, k):
            return it.py_repr(a[0])

        @f('print')
        def print_(it, a, k):
            return None

        @f('abs')
        def abs_(it, a, k):
            x = it.narrow(a[0])
            if isinstance(x, (int, float)):
                return abs(x)
            t = it.int_term(x)
            return it.lift(z3.If(t < 0, -t, t))

        @f('chr')
        def chr_(it, a, k):
            return chr(a[0])

        @f('ord')
        def ord_(it, a, k):
            if isinstance(a[0], str):
                return ord(a[0])
            raise Unsupported('ord')

        @f('hash')
        def hash_(it, a, k):
            it.check_hashable(a[0])
            return it.lift(fn('py_hash', V, INT)(it.to_V(a[0])))

        @f('vars')
        def vars_(it, a, k):
            raise Unsupported('vars')

        @f('dir')
        def dir_(it, a, k):
            raise Unsupported('dir')

        @f('globals')
        def globals_(it, a, k):
            raise Unsupported('globals')

        @f('exec')
        def exec_(it, a, k):
            h = it.ghost.get('ext:exec')
            if h is not None:
                return h(it, a, k)
            raise Unsupported('exec')

        @f('eval')
        def eval_(it, a, k):
            raise Unsupported('eval')

        @f('open')
        def open_(it, a, k):
            raise Unsupported('open')

        @f('__import__')
        def import_(it, a, k):
            h = it.ghost.get('ext:import')
            if h is not None:
                return h(it, a, k)
            raise Unsupported('__import__')

        @f('sorted')
        def sorted_(it, a, k):
            return it.sort_list(a[0], k.get('key'), k.get('reverse', False))

        @f('min')
        def min_(it, a, k):
            return it.minmax(a, k, False)

        @f('max')
        def max_(it, a, k):
            return it.minmax(a, k, True)

        @f('map')
        def map_(it, a, k):
            if len(a) != 2:
                z = self.names['zip'].fn(it, a[1:], {})
                o = it.new_list()
                it.loop_into(z, lambda x: it.list_append(o, it.call(a[0], list(x))))
                return it.iterate(o)
            return it.iterate(it.call(it.prelude['_map1'], a))

        @f('filter')
        def filter_(it, a, k):
            return it.iterate(it.call(it.prelude['_filter1'], a))

        @f('sum')
        def sum_(it, a, k):
            return it.call(it.prelude['sum'], a, k)

        @f('any')
        def any_(it, a, k):
            return it.call(it.prelude['any'], a)

        @f('all')
        def all_(it, a, k):
            return it.call(it.prelude['all'], a)

        @f('divmod')
        def divmod_(it, a, k):
            return (it.binop('FloorDiv', *a), it.binop('Mod', *a))

        @f('round')
        def round_(it, a, k):
            if all(isinstance(x, (int, float)) for x in a):
                return round(*a)
            raise Unsupported('round')

        @f('format')
        def format_(it, a, k):
            if len(a) == 1:
                return it.py_str(a[0])
            raise Unsupported('format()')

        # constructors
        @self.m('bool', '__new__')
        def bnew(it, a, k):
            if len(a) == 1:
                return False
            b = it.bool_term(a[1])
            return b if isinstance(b, bool) else it.lift(b)

        @self.m('int', '__new__')
        def inew(it, a, k):
            return it.to_int(a[1], *a[2:]) if len(a) > 1 else 0

        @self.m('float', '__new__')
        def fnew(it, a, k):
            return it.to_float(a[1]) if len(a) > 1 else 0.0

        @self.m('str', '__new__')
        def snew(it, a, k):
            return it.py_str(a[1]) if len(a) > 1 else ''

        @self.m('bytes', '__new__')
        def bynew(it, a, k):
            if len(a) == 1:
                return b''
            raise Unsupported('bytes()')

        @self.m('tuple', '__new__')
        def tpnew(it, a, k):
            if len(a) == 1:
                return ()
            x = it.narrow(a[1])
            if isinstance(x, tuple):
                return x
            src = it.iterate(x)
            n = src.n if isinstance(src.n, int) else z3.simplify(src.n)
            if not isinstance(n, int) and z3.is_int_value(n):
                n = n.as_long()
            if isinstance(n, int):
                return tuple(src.get(j) for j in range(n))
            if it.bound is not None:
                return tuple(it.to_host_list(src))
            # a tuple of unknown length: an engine object of class tuple with list payload
            o = it.new(B['tuple'])
            tmp = it.new_list()
            it.list_extend(tmp, src)
            o.data = tmp.data
            return o

        @self.m('tuple', '__init__')
        def tpinit(it, a, k):
            return None

        @self.m('list', '__init__')
        def linit(it, a, k):
            o = a[0]
            it.write_data(o)
            o.data = ListData()
            if len(a) > 1:
                it.list_extend(o, a[1])

        @self.m('set', '__init__')
        def sinit(it, a, k):
            it.write_data(a[0])
            a[0].data = SetData()
            if len(a) > 1:
                it.set_fill(a[0], a[1])

        @self.m('frozenset', '__init__')
        def fsinit(it, a, k):
            sinit(it, a, k)

        @self.m('dict', '__init__')
        def dinit(it, a, k):
            o = a[0]
            if o.data is None:
                o.data = DictData({})
            if len(a) > 1:
                it.dict_update(o, a[1])
            for kk, v in k.items():
                it.dict_set(o, kk, v)

        @self.m('property', '__new__')
        def pnew(it, a, k):
            a = list(a[1:]) + [None] * 3
            return PropertyV(k.get('fget', a[0]), k.get('fset', a[1]), k.get('fdel', a[2]))

        @self.m('classmethod', '__new__')
        def cmnew(it, a, k):
            return ClassM(a[1])

        @self.m('staticmethod', '__new__')
        def smnew(it, a, k):
            return StaticM(a[1])

    # ------------------------------------------------------------ str
    def str_methods(self):
        m = self.m

        def hostable(*xs):
            return all(is_prim(x) for x in xs)

        def simple(name, sym):
            def f(it, a, k):
                a = [it.narrow(x) for x in a]
                if hostable(*a):
                    try:
                        r = getattr(a[0], name)(*a[1:])
                    except (TypeError, ValueError) as e:
                        it.raise_exc(type(e).__name__, str(e))
                    if isinstance(r, list):
                        return it.list_of(r)
                    return r
                return sym(it, a)
            self.B['str'].ns[name] = BuiltinFn('str.' + name, f)
        simple('lower', lambda it, a: it.lift(LOWER(it.str_term(a[0]))))
        simple('upper', lambda it, a: it.lift(UPPER(it.str_term(a[0]))))
        simple('casefold', lambda it, a: it.lift(STRFN(z3.StringVal('casefold'), it.str_term(a[0]), z3.StringVal(''))))

        def affix(t):
            def g(it, a):
                x = it.narrow(a[1])
                if isinstance(x, tuple):
                    return it.lift(z3.Or([t(it.str_term(y), it.str_term(a[0])) for y in x]))
                return it.lift(t(it.str_term(x), it.str_term(a[0])))
            return g
        simple('startswith', affix(z3.PrefixOf))
        simple('endswith', affix(z3.SuffixOf))
        for n in ('strip', 'lstrip', 'rstrip'):
            simple(n, lambda it, a, n=n: it.lift(STRFN(z3.StringVal(n), it.str_term(a[0]),
                                                       it.str_term(a[1]) if len(a) > 1 and a[1] is not None else z3.StringVal('<ws>'))))
        for n in ('title', 'capitalize', 'swapcase'):
            simple(n, lambda it, a, n=n: it.lift(STRFN(z3.StringVal(n), it.str_term(a[0]), z3.StringVal(''))))
        for n in ('isspace', 'isdigit', 'isalpha', 'isalnum', 'isidentifier', 'islower', 'isupper', 'isnumeric', 'isdecimal'):
            simple(n, lambda it, a, n=n: it.lift(fn('str_pred', STR, STR, BOOL)(z3.StringVal(n), it.str_term(a[0]))))

        def split(it, a):
            s = it.str_term(a[0])
            if len(a) > 2 and a[2] != -1:
                raise Unsupported('split maxsplit')
            sep = it.str_term(a[1]) if len(a) > 1 and a[1] is not None else z3.StringVal('<ws>')
            t = SPLIT(s, sep)
            if len(a) > 1 and a[1] is not None:
                it.assume(z3.Length(t) >= 1)
                it.assume(z3.Implies(z3.Not(z3.Contains(s, sep)), t == z3.Unit(V.str(s))))
                it.assume(z3.Implies(z3.Contains(s, sep), z3.Length(t) >= 2))
            return it.seq_list(t, it.B['str'])
        simple('split', split)
        simple('splitlines', lambda it, a: it.seq_list(SPLITLINES(it.str_term(a[0])), it.B['str']))

        def partition(it, a):
            s, sep = it.str_term(a[0]), it.str_term(a[1])
            if it.branch(z3.Contains(s, sep)):
                i = z3.IndexOf(s, sep, z3.IntVal(0))
                return (it.lift(z3.SubString(s, 0, i)), it.lift(sep),
                        it.lift(z3.SubString(s, i + z3.Length(sep), z3.Length(s) - i - z3.Length(sep))))
            return (it.lift(s), '', '')
        simple('partition', partition)
        simple('count', lambda it, a: self.count_sym(it, a))
        simple('find', lambda it, a: it.lift(z3.IndexOf(it.str_term(a[0]), it.str_term(a[1]), z3.IntVal(0))))

        def index(it, a):
            s, sep = it.str_term(a[0]), it.str_term(a[1])
            if not it.branch(z3.Contains(s, sep)):
                it.raise_exc('ValueError', 'substring not found')
            return it.lift(z3.IndexOf(s, sep, z3.IntVal(0)))
        simple('index', index)
        simple('replace', lambda it, a: it.lift(fn('str_replace_all', STR, STR, STR, STR)(*[it.str_term(x) for x in a])))
        simple('encode', lambda it, a: Sym(fn('str_encode', STR, V)(it.str_term(a[0]))))

        @m('str', 'format')
        def format_(it, a, k):
            return it.str_format(it.narrow(a[0]), a[1:], k)

        @m('str', 'join')
        def join(it, a, k):
            src = it.iterate(a[1])
            n = src.n if isinstance(src.n, int) else z3.simplify(src.n)
            if isinstance(n, int) or z3.is_int_value(n):
                parts = []
                for j, x in enumerate(it.to_host_list(src)):
                    x = it.narrow(x)
                    if not (isinstance(x, str) or (isinstance(x, Sym) and x.kind == 'Str')):
                        if isinstance(x, Sym) and x.kind == 'V':
                            if not it.branch(V.is_str(x.t)):
                                it.raise_exc('TypeError', 'sequence item: expected str instance')
                            x = it.lift(V.s(x.t))
                        else:
                            it.raise_exc('TypeError', 'sequence item: expected str instance')
                    if j and (not isinstance(a[0], str) or a[0]):
                        parts.append(a[0])
                    parts.append(x)
                return it.concat_str(parts)
            if src.seq is not None:
                o = it.new_list(src.seq)
                if not it.all_strs(o.data):
                    raise Unsupported('join of elements not known to be texts')
                return it.lift(JOIN(it.str_term(a[0]), it.list_term(o)))
            raise Unsupported('join of elements not known to be texts')

        @m('str', 'format_map')
        def format_map(it, a, k):
            return it.str_format(it.narrow(a[0]), [], it.host_dict(a[1]))

        @m('bytes', 'decode')
        def decode(it, a, k):
            if isinstance(a[0], bytes):
                try:
                    return a[0].decode(*a[1:])
                except UnicodeDecodeError as e:
                    it.raise_exc('UnicodeDecodeError', str(e))
            return Sym(fn('bytes_decode', V, STR)(it.to_V(a[0])))

        @m('float', 'is_integer')
        def is_integer(it, a, k):
            x = it.narrow(a[0])
            if isinstance(x, float):
                return x.is_integer()
            t = x.t
            return it.lift(z3.And(z3.Not(z3.fpIsInf(t)), z3.Not(z3.fpIsNaN(t)),
                                  z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), t), t)))

        @m('int', 'is_integer')
        def int_is_integer(it, a, k):
            it.raise_exc('AttributeError', 'is_integer')
        del self.B['int'].ns['is_integer']

    def count_sym(self, it, a):
        t = COUNT(it.str_term(a[0]), it.str_term(a[1]))
        it.assume(t >= 0)
        it.assume((t > 0) == z3.Contains(it.str_term(a[0]), it.str_term(a[1])))
        return it.lift(t)

    # ------------------------------------------------------------ list / tuple
    def list_methods(self):
        m = self.m

        @m('list', 'append')
        def append(it, a, k):
            it.list_append(a[0], a[1])

        @m('list', 'extend')
        def extend(it, a, k):
            it.list_extend(a[0], a[1])

        @m('list', 'insert')
        def insert(it, a, k):
            it.list_insert(a[0], a[1], a[2])

        @m('list', 'pop')
        def pop(it, a, k):
            return it.list_pop(a[0], *(a[1:2]))

        @m('list', 'clear')
        def clear(it, a, k):
            it.write_data(a[0])
            a[0].data.chunks = []

        @m('list', 'copy')
        def copy(it, a, k):
            return it.new_list(a[0].data.chunks)

        @m('list', 'index')
        def index(it, a, k):
            d = a[0].data
            x = it.narrow(a[1])
            if it.bound is None and isinstance(d, ListData) and not d.concrete and len(a) == 2 and it.by_identity(x):
                # by identity
                off, t = z3.IntVal(0), z3.Unit(it.to_V(x))
                for c in d.chunks:
                    if c[0] == 'e':
                        same = it.ident_or_eq(c[1], x)
                        if same is True or (same is not False and it.branch(same)):
                            return it.lift(off)
                        off = off + 1
                    else:
                        if it.branch(z3.Contains(c[1], t)):
                            return it.lift(off + z3.IndexOf(c[1], t, z3.IntVal(0)))
                        off = off + z3.Length(c[1])
                it.raise_exc('ValueError', 'not in list')
            for j, x in enumerate(it.to_host_list(a[0])):
                t = it.ident_or_eq(x, a[1])
                if t is True or (t is not False and it.branch(t)):
                    return j
            it.raise_exc('ValueError', 'not in list')

        @m('list', 'remove')
        def remove(it, a, k):
            j = index(it, a, k)
            it.list_delitem(a[0], j)

        @m('list', 'count')
        def count(it, a, k):
            n = 0
            for x in it.to_host_list(a[0]):
                t = it.ident_or_eq(x, a[1])
                if t is True or (t is not False and it.branch(t)):
                    n += 1
            return n

        @m('list', 'reverse')
        def reverse(it, a, k):
            if not a[0].data.concrete:
                raise Unsupported('reverse of a symbolic list')
            it.write_data(a[0])
            a[0].data.chunks = a[0].data.chunks[::-1]

        @m('list', 'sort')
        def sort(it, a, k):
            r = it.sort_list(a[0], k.get('key'), k.get('reverse', False))
            it.write_data(a[0])
            a[0].data.chunks = list(r.data.chunks)

        for n, f in (('__len__', lambda it, a, k: it.list_len(a[0])),
                     ('__getitem__', lambda it, a, k: it.list_getitem(a[0], a[1])),
                     ('__setitem__', lambda it, a, k: it.list_setitem(a[0], a[1], a[2])),
                     ('__delitem__', lambda it, a, k: it.list_delitem(a[0], a[1])),
                     ('__contains__', lambda it, a, k: it.wrapb(it.list_contains(a[0], a[1]))),
                     ('__iter__', lambda it, a, k: it.iter_list(a[0]))):
            self.B['list'].ns[n] = BuiltinFn('list.' + n, f)
        self.B['list'].ns['__hash__'] = MISSING
        del self.B['list'].ns['__hash__']

        @m('tuple', 'index')
        def tindex(it, a, k):
            for j, x in enumerate(a[0]):
                t = it.ident_or_eq(x, a[1])
                if t is True or (t is not False and it.branch(t)):
                    return j
            it.raise_exc('ValueError', 'not in tuple')

        @m('tuple', 'count')
        def tcount(it, a, k):
            raise Unsupported('tuple.count')

    # ------------------------------------------------------------ dict
    def dict_methods(self):
        m = self.m

        @m('dict', 'get')
        def get(it, a, k):
            o, key = a[0], a[1]
            dflt = a[2] if len(a) > 2 else k.get('default')
            h = it.dict_has(o, key)
            if h is True or (h is not False and it.branch(h)):
                return it.dict_get(o, key)
            return dflt

        @m('dict', 'keys')
        def keys(it, a, k):
            return it.dict_view(a[0], 'keys')

        @m('dict', 'values')
        def values(it, a, k):
            return it.dict_view(a[0], 'values')

        @m('dict', 'items')
        def items(it, a, k):
            return it.dict_view(a[0], 'items')

        @m('dict', 'update')
        def update(it, a, k):
            if len(a) > 1:
                it.dict_update(a[0], a[1])
            for kk, v in k.items():
                it.dict_set(a[0], kk, v)

        @m('dict', 'pop')
        def pop(it, a, k):
            o, key = a[0], a[1]
            h = it.dict_has(o, key)
            if h is True or (h is not False and it.branch(h)):
                v = it.dict_get(o, key)
                it.dict_del(o, key)
                return v
            if len(a) > 2:
                return a[2]
            it.raise_exc('KeyError', key)

        @m('dict', 'setdefault')
        def setdefault(it, a, k):
            o, key = a[0], a[1]
            h = it.dict_has(o, key)
            if h is True or (h is not False and it.branch(h)):
                return it.dict_get(o, key)
            v = a[2] if len(a) > 2 else None
            it.dict_set(o, key, v)
            return v

        @m('dict', 'copy')
        def copy(it, a, k):
            o = it.new_dict()
            o.data = a[0].data.copy()
            return o

        @m('dict', 'clear')
        def clear(it, a, k):
            it.write_data(a[0])
            a[0].data = DictData({})

        @m('dict', 'popitem')
        def popitem(it, a, k):
            raise Unsupported('popitem')

        def fromkeys(it, a, k):
            o = it.new_dict()
            for x in it.to_host_list(a[1]):
                it.dict_set(o, x, a[2] if len(a) > 2 else None)
            return o
        self.B['dict'].ns['fromkeys'] = ClassM(BuiltinFn('dict.fromkeys', fromkeys))

        def dget(it, a, k):
            return it.dict_get(a[0], a[1])
        for n, f in (('__len__', lambda it, a, k: it.length(it.dict_proxy(a[0]))),
                     ('__getitem__', dget),
                     ('__setitem__', lambda it, a, k: it.dict_set(a[0], a[1], a[2])),
                     ('__delitem__', lambda it, a, k: it.dict_del(a[0], a[1])),
                     ('__contains__', lambda it, a, k: it.wrapb(it.dict_has(a[0], a[1]))),
                     ('__iter__', lambda it, a, k: it.dict_view(a[0], 'keys'))):
            self.B['dict'].ns[n] = BuiltinFn('dict.' + n, f)

    # ------------------------------------------------------------ set
    def set_methods(self):
        for c in ('set', 'frozenset'):
            m = self.m

            @m(c, 'add')
            def add(it, a, k):
                it.set_add(a[0], a[1])

            @m(c, 'discard')
            def discard(it, a, k):
                o, x = a
                it.write_data(o)
                if o.data.dom is None and not isinstance(x, Sym) and not any(isinstance(y, Sym) for y in o.data.items):
                    o.data.items = [y for y in o.data.items if it.ident_or_eq(y, x) is not True]
                    return
                o.data = SetData(dom=z3.Store(it.set_term(o), it.to_V(x), z3.BoolVal(False)))

            @m(c, 'remove')
            def remove(it, a, k):
                h = it.set_has(a[0], a[1])
                if not (h is True or (h is not False and it.branch(h))):
                    it.raise_exc('KeyError', a[1])
                discard(it, a, k)

            @m(c, 'update')
            def update(it, a, k):
                for x in a[1:]:
                    it.set_fill(a[0], x)

            @m(c, 'copy')
            def copy(it, a, k):
                o = it.new(it.B['set'])
                o.data = a[0].data.copy()
                return o

            @m(c, 'clear')
            def clear(it, a, k):
                it.write_data(a[0])
                a[0].data = SetData()

            for n, op in (('difference', 'Sub'), ('intersection', 'BitAnd'), ('union', 'BitOr')):
                @m(c, n)
                def sop(it, a, k, op=op):
                    r = a[0]
                    for y in a[1:]:
                        r = it.set_op(op, r, it.as_set(y))
                    if r is a[0]:
                        return copy(it, [r], {})
                    return r

            @m(c, 'issubset')
            def issubset(it, a, k):
                return it.set_order('LtE', a[0], it.as_set(a[1]))

            @m(c, 'issuperset')
            def issuperset(it, a, k):
                return it.set_order('LtE', it.as_set(a[1]), a[0])

            @m(c, 'isdisjoint')
            def isdisjoint(it, a, k):
                x = it.set_op('BitAnd', a[0], it.as_set(a[1]))
                return it.notb(it.bool_term(x))
            B = self.B
            for n, f in (('__len__', lambda it, a, k: it.length(a[0])),
                         ('__contains__', lambda it, a, k: it.wrapb(it.set_has(a[0], a[1]))),
                         ('__iter__', lambda it, a, k: it.iterate(a[0]))):
                B[c].ns[n] = BuiltinFn(c + '.' + n, f)

    def misc_methods(self):
        B = self.B
        for c in ('int', 'float', 'str', 'list', 'dict', 'tuple', 'bool', 'bytes', 'set'):
            B[c].ns.setdefault('__doc__', None)

        def gen_next(it, a, k):
            return self.names['next'].fn(it, a, k)
        B['generator'].ns['__next__'] = BuiltinFn('generator.__next__', gen_next)
        B['generator'].ns['__iter__'] = BuiltinFn('generator.__iter__', lambda it, a, k: a[0])
        B['range'].ns['__len__'] = BuiltinFn('range.__len__', lambda it, a, k: it.lift(a[0].n) if not isinstance(a[0].n, int) else a[0].n)

    # ------------------------------------------------------------ stdlib modules
    def mod(self, name, **ns):
        m = ModuleVal(name, dict(ns))
        m.ns['__name__'] = name
        self.modules[name] = m
        return m

    def stdlib(self):
        B, names = self.B, self.names
        bf = BuiltinFn
        mod = self.mod
        ident = bf('identity', lambda it, a, k: a[0])
        noop = bf('noop', lambda it, a, k: None)

        # -- sys / os / types
        mod('sys', version_info=(3, 9, 0, 'final', 0), modules=None, maxsize=2 ** 63 - 1)
        mod('__future__', absolute_import=None, with_statement=None, print_function=None, unicode_literals=None, division=None)
        mod('types', FunctionType=B['function'], MethodType=B['method'], ModuleType=B['module'])
        mod('typing', Any=None, Optional=None, List=None, Dict=None)

        # -- abc
        mod('abc', abstractmethod=ident, ABCMeta=B['type'], ABC=B['object'], abstractproperty=names['property'])

        # -- numbers
        num = self.cls('Number', ['object'], host('Number'))
        integral = self.cls('Integral', [num], host('Integral'))
        real = self.cls('Real', [num], host('Real'))
        mod('numbers', Number=num, Integral=integral, Real=real)

        # -- functools / itertools / operator
        part = self.cls('partial', ['object'], host('partial'))

        def pnew(it, a, k):
            o = it.new(part)
            o.attrs.update({'func': a[1], 'args': tuple(a[2:])})
            o.ghost = {'kw': dict(k)}
            return o

        def pcall(it, a, k):
            o = a[0]
            kw = dict(o.ghost['kw'])
            kw.update(k)
            return it.call(o.attrs['func'], list(o.attrs['args']) + list(a[1:]), kw)
        part.ns['__new__'] = bf('partial.__new__', pnew)
        part.ns['__init__'] = bf('partial.__init__', lambda it, a, k: None)
        part.ns['__call__'] = bf('partial.__call__', pcall)

        def reduce_(it, a, k):
            return it.call(it.prelude['reduce'], a)

        def wraps(it, a, k):
            return ident

        def total_ordering(it, a, k):
            raise Unsupported('total_ordering')
        mod('functools', partial=part, reduce=bf('reduce', reduce_), wraps=bf('wraps', wraps),
            total_ordering=bf('total_ordering', total_ordering))

        def chain(it, a, k):
            return it.iterate(it.call(it.prelude['_chain'], a))

        def islice(it, a, k):
            raise Unsupported('islice')

        def takewhile(it, a, k):
            return it.iterate(it.call(it.prelude['_takewhile'], a))
        mod('itertools', chain=bf('chain', chain), islice=bf('islice', islice), takewhile=bf('takewhile', takewhile),
            count=bf('count', islice), repeat=bf('repeat', islice))

        def attrgetter(it, a, k):
            n = a[0]

            def g(it, b, kk):
                v = b[0]
                for p in n.split('.'):
                    v = it.getattr(v, p)
                return v
            return bf('attrgetter', g)

        def itemgetter(it, a, k):
            return bf('itemgetter', lambda it, b, kk: it.getitem(b[0], a[0]))
        ops = {n: bf(n, lambda it, a, k, o=o: it.compare(o, a[0], a[1])) for n, o in
               (('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('eq', 'Eq'), ('ne', 'NotEq'),
                ('is_', 'Is'), ('is_not', 'IsNot'))}
        ops.update({n: bf(n, lambda it, a, k, o=o: it.binop(o, a[0], a[1])) for n, o in
                    (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('or_', 'BitOr'), ('and_', 'BitAnd'))})
        ops['contains'] = bf('contains', lambda it, a, k: it.wrapb(it.contains(a[0], a[1])))
        ops['getitem'] = bf('getitem', lambda it, a, k: it.getitem(a[0], a[1]))
        ops['not_'] = bf('not_', lambda it, a, k: not it.truth(a[0]))
        mod('operator', attrgetter=bf('attrgetter', attrgetter), itemgetter=bf('itemgetter', itemgetter), **ops)

        # -- copy / weakref / warnings / threading / contextlib
        def copy_(it, a, k):
            return it.copy_obj(a[0])

        def deepcopy(it, a, k):
            raise Unsupported('deepcopy')
        mod('copy', copy=bf('copy', copy_), deepcopy=bf('deepcopy', deepcopy))
        mod('weakref', proxy=bf('weakref.proxy', lambda it, a, k: a[0]),
            ref=bf('weakref.ref', lambda it, a, k: bf('ref', lambda it2, b, kk: a[0])))
        cw = self.cls('catch_warnings', ['object'], host('catch_warnings'))
        cw.ns['__enter__'] = noop
        cw.ns['__exit__'] = noop
        cw.ns['__init__'] = noop
        mod('warnings', catch_warnings=cw, filterwarnings=noop, simplefilter=noop, warn=noop)
        loc = self.cls('local', ['object'], host('local'))
        mod('threading', local=loc)
        gcm = self.cls('_GeneratorContextManager', ['object'], host('gcm'))

        def contextmanager(it, a, k):
            f = a[0]

            def make(it, b, kk):
                o = it.new(gcm)
                o.ghost = {'gen': (f, list(b), dict(kk))}
                return o
            w = bf('contextmanager(%s)' % getattr(f, 'name', '?'), make)
            w.spec = ((), 'args', 'kwds', None, (), None, ())          # getfullargspec does not look through wrappers
            return w
        mod('contextlib', contextmanager=bf('contextmanager', contextmanager))

        # -- inspect
        def getfullargspec(it, a, k):
            f = a[0]
            while isinstance(f, BoundMethod):
                f = f.func
            if isinstance(f, (ClassM, StaticM)):
                f = f.f
            while isinstance(f, BuiltinFn) and getattr(f, 'wrapped', None) is not None:
                f = f.wrapped
            if isinstance(f, BuiltinFn) and getattr(f, 'spec', None) is not None:
                return f.spec
            if isinstance(f, BuiltinFn) or not isinstance(f, FuncVal):
                it.raise_exc('TypeError', 'unsupported callable')
            ar = f.node.args
            ann = tuple(x.arg for x in ar.posonlyargs + ar.args + ar.kwonlyargs if x.annotation is not None)
            return (tuple(x.arg for x in ar.posonlyargs + ar.args), ar.vararg.arg if ar.vararg else None,
                    ar.kwarg.arg if ar.kwarg else None, tuple(f.defaults) if f.defaults else None,
                    tuple(x.arg for x in ar.kwonlyargs), tuple(f.kwdefaults) or None, ann)

        def getmembers(it, a, k):
            o = a[0]
            pred = a[1] if len(a) > 1 else None
            if not isinstance(o, ClassVal):
                raise Unsupported('getmembers of an instance')
            names_ = sorted({n for c in o.mro if c.host is None for n in c.ns if not n.startswith('__opaque') and
                             not n.startswith('__elem')})
            out = it.new_list()
            for n in names_:
                v = it.getattr(o, n, POISON)
                if v is POISON:
                    continue
                if pred is None or it.truth(it.call(pred, [v])):
                    out.data.chunks.append(('e', (n, v)))
            return out

        def isclass(it, a, k):
            x = it.narrow(a[0])
            if isinstance(x, Sym) and x.cls is None and x.kind == 'V':
                h = it.ghost.get('isclass_opaque')
                if h is not None:
                    return h(it, x)
                raise Unsupported('isclass of an unknown value')
            return isinstance(x, ClassVal)

        def getmro(it, a, k):
            if not isinstance(a[0], ClassVal):
                it.raise_exc('AttributeError', '__mro__')
            return tuple(a[0].mro)
        mod('inspect', getfullargspec=bf('getfullargspec', getfullargspec), getargspec=bf('getargspec', getfullargspec),
            getmembers=bf('getmembers', getmembers), isclass=bf('isclass', isclass), getmro=bf('getmro', getmro),
            isabstract=bf('isabstract', lambda it, a, k: False),
            isfunction=bf('isfunction', lambda it, a, k: isinstance(a[0], FuncVal)),
            ismethod=bf('ismethod', lambda it, a, k: isinstance(a[0], BoundMethod)),
            isroutine=bf('isroutine', lambda it, a, k: isinstance(it.narrow(a[0]), (FuncVal, BuiltinFn, BoundMethod))),
            isgeneratorfunction=bf('isgeneratorfunction', lambda it, a, k: False))

        self.re_module()
        self.time_modules()
        self.six_module()
        self.other_modules()

    def re_module(self):
        bf = BuiltinFn
        pat = self.cls('Pattern', ['object'], host('Pattern'))
        mat = self.cls('Match', ['object'], host('Match'))

        def compile_(it, a, k):
            p = it.narrow(a[0])
            if isinstance(p, Obj) and p.cls is pat:
                return p
            o = it.new(pat)
            o.attrs['pattern'] = p
            o.ghost = {'re': None}
            if isinstance(p, str):
                import re
                try:
                    o.ghost['re'] = re.compile(p, *[x for x in a[1:] if isinstance(x, int)])
                except re.error as e:
                    it.raise_exc('ValueError', str(e))
            return o

        def patid(it, p):
            if isinstance(p, Sym):
                return V.rid(p.t)
            if isinstance(p.attrs['pattern'], str):
                # equal patterns have equal behaviour
                return it.loader.pattern_id(p.attrs['pattern'], p.ghost['re'].flags if p.ghost and p.ghost.get('re') else 32)
            return z3.IntVal(p.oid)

        def matcher(kind):
            def match(it, a, k):
                p, s = a[0], it.narrow(a[1])
                if isinstance(s, str) and isinstance(p, Obj) and p.ghost['re'] is not None:
                    r = getattr(p.ghost['re'], kind)(s)
                    if r is None:
                        return None
                    o = it.new(mat)
                    o.ghost = {'m': r}
                    return o
                if isinstance(s, Sym) and s.kind == 'V':
                    if not it.branch(V.is_str(s.t)):
                        it.raise_exc('TypeError', 'expected string or bytes-like object')
                    s = it.lift(V.s(s.t))
                elif not (isinstance(s, str) or (isinstance(s, Sym) and s.kind == 'Str')):
                    it.raise_exc('TypeError', 'expected string or bytes-like object')
                pid = patid(it, p)
                how = lambda kd: RE_MATCH(pid, z3.StringVal(kd), it.str_term(s))          # noqa: E731
                it.assume(z3.Implies(how('fullmatch'), how('match')))
                it.assume(z3.Implies(how('match'), how('search')))
                if it.branch(how(kind)):
                    o = it.new(mat)
                    o.ghost = {'sym': (pid, it.str_term(s)), 'kind': kind, 're': p.ghost.get('re') if isinstance(p, Obj) and p.ghost else None}
                    return o
                return None
            return match
        for kd in ('match', 'search', 'fullmatch'):
            pat.ns[kd] = bf('Pattern.' + kd, matcher(kd))

        def check_group(it, o, g):
            rx, (pid, s) = o.ghost.get('re'), o.ghost['sym']
            g = it.narrow(g)
            if rx is not None and isinstance(g, (str, int)):
                if (g not in rx.groupindex) if isinstance(g, str) else not 0 <= g <= rx.groups:
                    it.raise_exc('IndexError', 'no such group')
            elif g != 0 or isinstance(g, Sym):
                if not it.branch(RE_HASGROUP(pid, it.to_V(g))):
                    it.raise_exc('IndexError', 'no such group')
            return g

        def group(it, a, k):
            o = a[0]
            gs = a[1:] or [0]
            out = []
            for g in gs:
                if o.ghost and 'm' in o.ghost:
                    try:
                        out.append(o.ghost['m'].group(g))
                    except IndexError as e:
                        it.raise_exc('IndexError', 'no such group')
                    continue
                pid, s = o.ghost['sym']
                g = check_group(it, o, g)
                full = o.ghost['kind'] == 'fullmatch'
                t = (RE_GROUPF if full else RE_GROUP)(pid, s, it.to_V(g))
                it.assume(z3.Or(V.is_str(t), V.is_none(t)))
                if g == 0 and not isinstance(g, Sym):
                    it.assume(V.is_str(t))
                    if full:
                        it.assume(V.s(t) == s)
                out.append(it.narrow(it.lift(t)))
            return out[0] if len(out) == 1 else tuple(out)

        def bounds(it, a, k):
            """Where group g of the match starts and ends (-1, -1: it took no part)."""
            o, g = a[0], (a[1] if len(a) > 1 else 0)
            if o.ghost and 'm' in o.ghost:
                try:
                    return o.ghost['m'].span(g)
                except IndexError:
                    it.raise_exc('IndexError', 'no such group')
            pid, s = o.ghost['sym']
            g = check_group(it, o, g)
            full, kd = o.ghost['kind'] == 'fullmatch', z3.StringVal(o.ghost['kind'])
            t = (RE_GROUPF if full else RE_GROUP)(pid, s, it.to_V(g))
            lo, hi = (f(pid, kd, s, it.to_V(g)) for f in (RE_START, RE_END))
            it.assume(z3.Or(V.is_str(t), V.is_none(t)))
            it.assume(z3.If(V.is_none(t), z3.And(lo == -1, hi == -1), z3.And(
                lo >= 0, hi >= lo, hi <= z3.Length(s), V.s(t) == z3.SubString(s, lo, hi - lo))))
            if g == 0 and not isinstance(g, Sym):
                it.assume(V.is_str(t))
                if o.ghost['kind'] != 'search':
                    it.assume(lo == 0)
                if full:
                    it.assume(hi == z3.Length(s))
            return Sym(lo), Sym(hi)
        mat.ns['span'] = bf('Match.span', bounds)
        mat.ns['start'] = bf('Match.start', lambda it, a, k: bounds(it, a, k)[0])
        mat.ns['end'] = bf('Match.end', lambda it, a, k: bounds(it, a, k)[1])

        def lastindex(it, a, k):
            o = a[0]
            if o.ghost and 'm' in o.ghost:
                return o.ghost['m'].lastindex
            pid, s = o.ghost['sym']
            t = RE_LAST(pid, z3.StringVal(o.ghost['kind']), s)
            it.assume(z3.Or(V.is_none(t), z3.And(V.is_int(t), V.i(t) >= 1, RE_HASGROUP(pid, t))))
            return it.narrow(it.lift(t))
        mat.ns['lastindex'] = PropertyV(bf('Match.lastindex', lastindex))
        mat.ns['string'] = PropertyV(bf('Match.string', lambda it, a, k: a[0].ghost['m'].string if 'm' in a[0].ghost
                                        else it.narrow(Sym(a[0].ghost['sym'][1]))))
        mat.ns['group'] = bf('Match.group', group)
        mat.ns['__getitem__'] = bf('Match.__getitem__', group)

        def groups(it, a, k):
            if a[0].ghost and 'm' in a[0].ghost:
                return a[0].ghost['m'].groups()
            raise Unsupported('Match.groups')
        mat.ns['groups'] = bf('Match.groups', groups)

        def groupdict(it, a, k):
            raise Unsupported('Match.groupdict')
        mat.ns['groupdict'] = bf('Match.groupdict', groupdict)

        def modfn(kind):
            def f(it, a, k):
                return matcher(kind)(it, [compile_(it, [a[0]], {})] + list(a[1:]), k)
            return bf('re.' + kind, f)
        self.patid = patid
        self.mod('re', compile=bf('re.compile', compile_), match=modfn('match'), search=modfn('search'),
                 fullmatch=modfn('fullmatch'), Pattern=pat, IGNORECASE=2, MULTILINE=8, DOTALL=16, VERBOSE=64,
                 error=self.B['ValueError'])

    def time_modules(self):
        bf = BuiltinFn
        B = self.B
        date = self.cls('date', ['object'], host('date'))
        dt = self.cls('datetime', [date], host('datetime'))
        tm = self.cls('time', ['object'], host('time'))
        td = self.cls('timedelta', ['object'], host('timedelta'))
        st = self.cls('struct_time', ['tuple'], host('struct_time'))
        dec = self.cls('Decimal', ['object'], host('Decimal'))
        uid = self.cls('UUID', ['object'], host('UUID'))
        inv = self.cls('InvalidOperation', ['ArithmeticError'], host('InvalidOperation'))
        B['DecimalException'] = B['ArithmeticError']

        def opaque(it, t, cls):
            it.assume(V.is_ref(t))
            it.assume(V.rid(t) >= OPAQUE_BASE)
            for c in cls.mro:
                if c.name != 'object':
                    it.assume(ISINST(t, z3.StringVal(c.name)))
            for a, b in it.DISJOINT:
                names = [c.name for c in cls.mro]
                if a in names:
                    it.assume(z3.Not(ISINST(t, z3.StringVal(b))))
                if b in names:
                    it.assume(z3.Not(ISINST(t, z3.StringVal(a))))
            return Sym(t, cls)
        self.opaque = opaque

        def need_str(it, x):
            x = it.narrow(x)
            if isinstance(x, Sym) and x.kind == 'V':
                if not it.branch(V.is_str(x.t)):
                    it.raise_exc('TypeError', 'argument must be str')
                return V.s(x.t)
            if isinstance(x, str) or (isinstance(x, Sym) and x.kind == 'Str'):
                return it.str_term(x)
            it.raise_exc('TypeError', 'argument must be str')

        def strptime(kind, cls):
            def f(it, a, k):
                s, fm = need_str(it, a[0]), need_str(it, a[1])
                kd = z3.StringVal(kind)
                if not it.branch(DT_OK(kd, s, fm)):
                    it.raise_exc('ValueError', Sym(it.fresh('strptime_msg', STR)))
                return opaque(it, DT_VAL(kd, s, fm), cls)
            return f
        dt.ns['strptime'] = StaticM(bf('datetime.strptime', strptime('datetime', dt)))
        dt.ns['date'] = bf('datetime.date', lambda it, a, k: opaque(it, DATEOF(it.to_V(a[0])), date))
        dt.ns['time'] = bf('datetime.time', lambda it, a, k: opaque(it, fn('datetime_time', V, V)(it.to_V(a[0])), tm))
        date.ns['strftime'] = bf('date.strftime', lambda it, a, k: it.lift(STRFT(it.to_V(a[0]), it.str_term(a[1]))))

        def ctor(name, cls):
            def new(it, a, k):
                t = it.fresh(name, V)
                return opaque(it, t, cls)
            cls.ns['__new__'] = bf(name, new)
        for n, c in (('date', date), ('datetime', dt), ('time', tm), ('timedelta', td)):
            ctor(n, c)
        self.mod('datetime', datetime=dt, date=date, time=tm, timedelta=td)
        self.mod('time', struct_time=st, strptime=bf('time.strptime', strptime('time', st)),
                 strftime=bf('time.strftime', lambda it, a, k: it.lift(STRFT(it.to_V(a[1]), it.str_term(a[0])))))

        def decnew(it, a, k):
            x = it.narrow(a[1]) if len(a) > 1 else 0
            t = it.to_V(x)
            # only strings (and odd types) can be rejected
            if not it.branch(DEC_OK(t)):
                if isinstance(x, str) or (isinstance(x, Sym) and x.kind == 'Str'):
                    raise PyRaise(it.make_exc(inv, Sym(it.fresh('dec_msg', STR))))
                if isinstance(x, Sym) and x.kind == 'V':
                    if it.branch(V.is_str(t)):
                        raise PyRaise(it.make_exc(inv, Sym(it.fresh('dec_msg', STR))))
                    it.assume(z3.Not(z3.Or(V.is_int(t), V.is_bool(t), V.is_flt(t))))
                    it.raise_exc('TypeError', 'conversion from %s to Decimal is not supported')
                if x is None or isinstance(x, (Obj, tuple)):
                    it.raise_exc('TypeError', 'conversion to Decimal is not supported')
                raise PathEnd()
            return opaque(it, DEC_VAL(t), dec)
        dec.ns['__new__'] = bf('Decimal', decnew)
        self.mod('decimal', Decimal=dec, InvalidOperation=inv, DecimalException=B['ArithmeticError'])

        def uuidnew(it, a, k):
            x = it.narrow(a[1])
            s = need_str(it, x)
            if not it.branch(UUID_OK(V.str(s))):
                it.raise_exc('ValueError', 'badly formed hexadecimal UUID string')
            return opaque(it, UUID_VAL(V.str(s)), uid)
        uid.ns['__new__'] = bf('UUID', uuidnew)
        self.mod('uuid', UUID=uid, uuid4=bf('uuid4', lambda it, a, k: opaque(it, it.fresh('uuid4', V), uid)))
        perr = self.cls('ParseError', ['ValueError'], host('ParseError'))

        def parse_date(it, a, k):
            s = it.narrow(a[0])
            if isinstance(s, Sym) and s.kind == 'V':
                if not it.branch(V.is_str(s.t)):
                    raise PyRaise(it.make_exc(perr, 'expecting a string'))
            s = it.str_term(s)
            if not it.branch(ISO_OK(s)):
                raise PyRaise(it.make_exc(perr, Sym(it.fresh('iso_msg', STR))))
            return opaque(it, ISO_VAL(s), dt)
        self.mod('iso8601', parse_date=bf('parse_date', parse_date), ParseError=perr)

    def six_module(self):
        B, bf = self.B, BuiltinFn

        def view(kind):
            return bf('six.iter' + kind, lambda it, a, k: it.iterate(it.call(it.getattr(a[0], kind), [])))

        def with_metaclass(it, a, k):
            return WithMeta(a[0], list(a[1:]))

        def exec_(it, a, k):
            h = it.ghost.get('ext:exec')
            if h is not None:
                return h(it, a, k)
            raise Unsupported('exec')
        moves = self.mod('six.moves', range=self.names['range'], xrange=self.names['range'],
                         reduce=self.modules['functools'].ns['reduce'], zip=self.names['zip'],
                         map=self.names['map'], filter=self.names['filter'])
        self.mod('six', string_types=(B['str'],), integer_types=(B['int'],), text_type=B['str'],
                 binary_type=B['bytes'], class_types=(B['type'],), iteritems=view('items'), iterkeys=view('keys'),
                 itervalues=view('values'), with_metaclass=bf('with_metaclass', with_metaclass), moves=moves,
                 PY2=False, PY3=True, exec_=bf('six.exec_', exec_), add_metaclass=bf('add_metaclass', exec_),
                 python_2_unicode_compatible=bf('p2u', lambda it, a, k: a[0]),
                 callable=self.names['callable'])

    def other_modules(self):
        B, bf = self.B, BuiltinFn

        def unsup(name):
            def f(it, a, k):
                h = it.ghost.get('ext:' + name)
                if h is not None:
                    return h(it, a, k)
                raise Unsupported(name)
            return bf(name, f)
        self.mod('imp', new_module=unsup('imp.new_module'))
        self.mod('importlib', import_module=unsup('importlib.import_module'))
        self.mod('json', loads=unsup('json.loads'), dumps=unsup('json.dumps'))
        self.mod('io', StringIO=unsup('io.StringIO'))
        self.mod('configparser', ConfigParser=unsup('ConfigParser'), RawConfigParser=unsup('RawConfigParser'))
        self.modules['six.moves'].ns['configparser'] = self.modules['configparser']
        self.modules['six.moves'].ns['StringIO'] = unsup('StringIO')
        self.modules['six.moves'].ns['cStringIO'] = unsup('StringIO')
        self.modules['six'].ns['StringIO'] = unsup('StringIO')

        def shsplit(it, a, k):
            if len(a) != 1 or k:
                raise Unsupported('shlex.split with options')
            s = it.narrow(a[0])
            if isinstance(s, str):
                import shlex
                try:
                    return it.list_of(shlex.split(s))
                except ValueError as e:
                    it.raise_exc('ValueError', str(e))
            t = it.str_term(s)
            if not it.branch(fn('shlex_ok', STR, BOOL)(t)):
                it.raise_exc('ValueError', 'No closing quotation')
            return it.seq_list(fn('shlex_split', STR, SEQ)(t), B['str'])
        self.mod('shlex', split=bf('shlex.split', shsplit))

        def dedent(it, a, k):
            return Sym(fn('dedent', STR, STR)(it.str_term(a[0])))
        self.mod('textwrap', dedent=bf('dedent', dedent))
        self.mod('logging', getLogger=unsup('getLogger'))
        self.mod('os', path=unsup('os.path'), environ=unsup('environ'))
        self.mod('string', ascii_letters='abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ', digits='0123456789',
                 ascii_lowercase='abcdefghijklmnopqrstuvwxyz', ascii_uppercase='ABCDEFGHIJKLMNOPQRSTUVWXYZ')
        dd = self.cls('defaultdict', ['dict'], dict)

        def ddinit(it, a, k):
            o = a[0]
            o.attrs['default_factory'] = a[1] if len(a) > 1 else None
            it.write_data(o)
            o.data = DictData({})
            if len(a) > 2:
                it.dict_update(o, a[2])

        def ddmissing(it, a, k):
            o, key = a
            f = o.attrs['default_factory']
            if f is None:
                it.raise_exc('KeyError', key)
            v = it.call(f, [])
            it.dict_set(o, key, v)
            return v
        dd.ns['__init__'] = bf('defaultdict.__init__', ddinit)
        dd.ns['__missing__'] = bf('defaultdict.__missing__', ddmissing)
        od = self.cls('OrderedDict', ['dict'], dict)

        def namedtuple(it, a, k):
            raise Unsupported('namedtuple')
        self.mod('collections', defaultdict=dd, OrderedDict=od, namedtuple=bf('namedtuple', namedtuple))


class BuiltinMixin(object):
    """Helpers used by the built-ins, mixed into the interpreter."""

    def current_module(self):
        return self.cur_module_stack[-1] if getattr(self, 'cur_module_stack', None) else self.loader.harness_module

    def host_dict(self, d):
        if isinstance(d, dict):
            return dict(d)
        if isinstance(d, Obj) and isinstance(d.data, DictData) and d.data.concrete:
            return dict(d.data.items)
        raise Unsupported('dict with unknown keys needed as a whole')

    def dict_proxy(self, o):
        return o

    # ------------------------------------------------------------ conversions
    def to_int(self, x, *base):
        x = self.narrow(x)
        if base:
            if all(is_prim(y) for y in (x,) + base):
                try:
                    return int(x, *base)
                except (ValueError, TypeError) as e:
                    self.raise_exc(type(e).__name__, str(e))
            raise Unsupported('int() with a base')
        if isinstance(x, (bool, int)):
            return int(x)
        if isinstance(x, float):
            try:
                return int(x)
            except (OverflowError, ValueError) as e:
                self.raise_exc(type(e).__name__, str(e))
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError as e:
                self.raise_exc('ValueError', 'invalid literal for int()')
        if isinstance(x, Sym):
            if x.kind == 'Int':
                return x
            if x.kind == 'Bool':
                return self.lift(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
            if x.kind == 'Str':
                if not self.branch(STRISINT(x.t)):
                    self.raise_exc('ValueError', 'invalid literal for int()')
                return self.lift(STRTOINT(x.t))
            if x.kind == 'Flt':
                if self.branch(z3.fpIsInf(x.t)):
                    self.raise_exc('OverflowError', 'cannot convert float infinity to integer')
                if self.branch(z3.fpIsNaN(x.t)):
                    self.raise_exc('ValueError', 'cannot convert float NaN to integer')
                return self.lift(FLTTOINT(x.t))
            if x.kind == 'V' and x.cls is None:
                return self.to_int(self.split_kind(x))
        if isinstance(x, Obj) and x.cls.lookup('__int__') is not MISSING:
            return self.call(x.cls.lookup('__int__'), [x])
        self.raise_exc('TypeError', 'int() argument must be a string or a number')

    def to_float(self, x):
        x = self.narrow(x)
        if isinstance(x, (bool, int, float)):
            try:
                return float(x)
            except OverflowError:
                self.raise_exc('OverflowError', 'int too large to convert to float')
        if isinstance(x, str):
            try:
                return float(x)
            except ValueError:
                self.raise_exc('ValueError', 'could not convert string to float')
        if isinstance(x, Sym):
            if x.kind == 'Flt':
                return x
            if x.kind in ('Int', 'Bool'):
                t = self.int_term(x)
                if not self.branch(INTTOFLTOK(t)):
                    self.raise_exc('OverflowError', 'int too large to convert to float')
                return self.lift(INTTOFLT(t))
            if x.kind == 'Str':
                if not self.branch(STRISFLT(x.t)):
                    self.raise_exc('ValueError', 'could not convert string to float')
                return self.lift(STRTOFLT(x.t))
            if x.kind == 'V' and x.cls is None:
                return self.to_float(self.split_kind(x))
        self.raise_exc('TypeError', 'float() argument must be a string or a number')

    def split_kind(self, x):
        """Fork on the kind of an unknown value; returns a typed value (opaque refs become a tuple-less object)."""
        t = x.t
        if self.branch(V.is_str(t)):
            return self.lift(V.s(t))
        if self.branch(V.is_int(t)):
            return self.lift(V.i(t))
        if self.branch(V.is_bool(t)):
            return self.lift(V.b(t))
        if self.branch(V.is_flt(t)):
            return self.lift(V.f(t))
        if self.branch(V.is_ref(t)):
            raise Unsupported('conversion of an opaque object')
        return None

    # ------------------------------------------------------------ containers
    def dict_view(self, o, kind):
        d = o.data
        if d.concrete:
            items = list(d.items.items())
            vals = [k for k, v in items] if kind == 'keys' else [v for k, v in items] if kind == 'values' else items
            r = IterV(len(vals), lambda j: vals[j], src=o, seq=[('e', v) for v in vals])
            r.src_n = len(vals)
            r.view = (o, kind)
            return r
        it = self.iter_symdict(o)
        if kind == 'keys':
            it.view = (o, kind)
            return it
        def get(j):
            k = it.get(j)
            now = o.data          # (values may be replaced meanwhile; a changed key set is a RuntimeError of the dict)
            if now.concrete:
                raise Unsupported('a dict replaced while it is enumerated')
            v = self.lift(z3.Select(now.val, self.to_V(k)), now.vcls)
            return v if kind == 'values' else (k, v)
        r = IterV(it.n, get, src=o)
        r.src_n = None
        r.view = (o, kind)
        return r

    def set_fill(self, o, src):
        src = self.narrow(src)

        def union(x):
            return x if o.data.dom is None and not o.data.items else z3.SetUnion(self.set_term(o), x)
        if isinstance(src, Obj) and isinstance(src.data, SetData):
            if src.data.dom is not None or o.data.dom is not None:
                self.write_data(o)
                o.data = SetData(dom=union(self.set_term(src)), strs=self.all_strs(o.data) and self.all_strs(src.data))
                return
        if isinstance(src, IterV) and getattr(src, 'view', None) and src.view[1] == 'keys' \
                and not src.view[0].data.concrete:
            self.write_data(o)
            o.data = SetData(dom=union(src.view[0].data.dom))
            return
        if isinstance(src, Obj) and isinstance(src.data, DictData) and not src.data.concrete:
            self.write_data(o)
            o.data = SetData(dom=union(src.data.dom))
            return
        it = self.iterate(src)
        n = it.n if isinstance(it.n, int) else z3.simplify(it.n)
        if isinstance(n, int) or z3.is_int_value(n) or self.bound is not None:
            for x in self.to_host_list(it):
                self.set_add(o, x)
            return
        self.loop_into(it, lambda x: self.set_add(o, x))

    def as_set(self, x):
        x = self.narrow(x)
        if isinstance(x, Obj) and isinstance(x.data, SetData):
            return x
        o = self.new(self.B['set'])
        o.data = SetData()
        self.set_fill(o, x)
        return o

    def set_order(self, op, a, b):
        if a.data.dom is None and b.data.dom is None:
            ts = [self.set_has(b, x) for x in a.data.items]
            if any(t is False for t in ts):
                return False
            ts = [t for t in ts if t is not True]
            return self.lift(z3.And(ts)) if ts else True
        return self.lift(z3.IsSubset(self.set_term(a), self.set_term(b)))

    def sort_list(self, src, key, reverse):
        h = self.ghost.get('sort')
        if h is not None:
            r = h(self, src, key, reverse)
            if r is not NotImplemented:
                return r
        items = self.to_host_list(src)
        ks = [x if key is None else self.call(key, [x]) for x in items]
        if all(is_prim(k) for k in ks):
            try:
                order = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(reverse))
            except TypeError as e:
                self.raise_exc('TypeError', str(e))
            return self.list_of([items[i] for i in order])
        return self.call(self.prelude['_insertion_sort'], [self.list_of(items), key, bool(reverse)])

    def minmax(self, a, k, pick_max):
        items = a[0] if len(a) == 1 else tuple(a)
        try:
            return self.call(self.prelude['_minmax'], [items, k.get('key'), pick_max])
        except PyRaise as e:
            if 'default' in k and self.exc_matches(e.exc, self.B['ValueError']):
                return k['default']
            raise

    def copy_obj(self, x):
        if isinstance(x, Obj):
            m = x.cls.lookup('__copy__')
            if m is not MISSING:
                return self.call(m, [x])
            o = self.new(x.cls)
            o.attrs = dict(x.attrs)
            o.data = x.data.copy() if hasattr(x.data, 'copy') else x.data
            o.ghost = x.ghost
            return o
        if isinstance(x, Sym) and x.kind == 'V':
            if x.cls is not None:
                h = x.cls.lookup('__copy__')
                if h is not MISSING:
                    return self.call(h, [x])
            raise Unsupported('copy of an opaque value')
        return x
