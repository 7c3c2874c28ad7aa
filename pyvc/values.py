"""Value universe of the pyvc verifier: z3 sorts and the engine's Python-level values."""
import z3

# ---------------------------------------------------------------- z3 sorts
FLT = z3.Float64()
_V = z3.Datatype('V')
_V.declare('none')
_V.declare('bool', ('b', z3.BoolSort()))
_V.declare('int', ('i', z3.IntSort()))
_V.declare('flt', ('f', FLT))
_V.declare('str', ('s', z3.StringSort()))
_V.declare('tup0')
_V.declare('pair', ('fst', _V), ('snd', _V))
_V.declare('trip', ('t1', _V), ('t2', _V), ('t3', _V))
_V.declare('ref', ('rid', z3.IntSort()))
V = _V.create()
SEQ = z3.SeqSort(V)
INT, BOOL, STR = z3.IntSort(), z3.BoolSort(), z3.StringSort()
SETS = z3.ArraySort(V, BOOL)
MAPS = z3.ArraySort(V, V)

#: Opaque pre-state objects have ids from here; engine-allocated ones are below.
OPAQUE_BASE = 10 ** 6


def fn(name, *sorts):
    return z3.Function(name, *sorts)


# uninterpreted observers of opaque values
TRUTH = fn('py_truth', V, BOOL)          # bool(x) of an opaque object
PYLEN = fn('py_len', V, INT)             # len(x) of an opaque object
UEQ = fn('py_eq', V, V, BOOL)            # x == y between opaque objects
ULT = fn('py_lt', V, V, BOOL)            # x < y, not both int / both float
ULE = fn('py_le', V, V, BOOL)
NUMEQ = fn('py_numeq', INT, FLT, BOOL)   # int == float
STROF = fn('py_str', V, STR)             # str(x)
REPROF = fn('py_repr', V, STR)
INSEQ = fn('py_inseq', SEQ, V, BOOL)     # x in list, for values other than str/None/sentinels
ISINST = fn('py_isinstance', V, STR, BOOL)
CALLABLE = fn('py_callable', V, BOOL)
HASATTR = fn('py_hasattr', V, STR, BOOL)
GETATTR = fn('py_getattr', V, STR, V)
LOWER = fn('str_lower', STR, STR)
UPPER = fn('str_upper', STR, STR)
LISTREF = fn('list_value', SEQ, INT)       # the identity of a list that is only ever compared (ghost['value_lists'])
UNLIST = fn('value_list', INT, SEQ)
SPLIT = fn('str_split', STR, STR, SEQ)
STRISINT = fn('int_accepts', STR, BOOL)
STRTOINT = fn('int_of_str', STR, INT)
STRISFLT = fn('float_accepts', STR, BOOL)
STRTOFLT = fn('float_of_str', STR, FLT)
INTTOFLTOK = fn('float_accepts_int', INT, BOOL)
INTTOFLT = fn('float_of_int', INT, FLT)
FLTTOINT = fn('int_of_float', FLT, INT)
NONEMPTY = fn('set_nonempty', SETS, BOOL)
CARD = fn('set_size', SETS, INT)


class Unsupported(Exception):
    """The code left the supported subset: the obligation is undecided, never a verdict."""


class PathEnd(Exception):
    """This path ends here (assumption violated or back edge of a cut loop)."""


class NeedFork(Exception):
    """A condition could not be decided without forking."""


class Sym(object):
    """A symbolic value: a z3 term, with an optional class hint for opaque objects."""
    __slots__ = ('t', 'cls')

    def __init__(self, t, cls=None):
        self.t = t
        self.cls = cls

    @property
    def kind(self):
        s = self.t.sort()
        if s == V:
            return 'V'
        if s == INT:
            return 'Int'
        if s == BOOL:
            return 'Bool'
        if s == STR:
            return 'Str'
        if s == FLT:
            return 'Flt'
        raise Unsupported('symbolic value of sort %s' % s)

    def __repr__(self):
        return 'Sym(%s%s)' % (self.t, ':' + self.cls.name if self.cls else '')


class ClassVal(object):
    def __init__(self, name, bases, ns, host=None, module=None, meta=None, node=None):
        self.name = name
        self.bases = list(bases)
        self.ns = ns
        self.host = host          # host class for built-ins
        self.module = module
        self.meta = meta
        self.node = node
        self.mro = c3(self)
        self.subclasses = []
        for b in self.bases:
            b.subclasses.append(self)

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return MISSING

    def owner(self, name):
        for c in self.mro:
            if name in c.ns:
                return c
        return None

    def is_sub(self, other):
        return other in self.mro

    def __repr__(self):
        return '<class %s>' % self.name


class _Missing(object):
    def __repr__(self):
        return '<missing>'


MISSING = _Missing()


class _Poison(object):
    def __repr__(self):
        return '<poison>'


POISON = _Poison()


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Unsupported('inconsistent MRO for %s' % cls.name)
        out.append(h)
        for s in seqs:
            if s[0] is h:
                del s[0]


class ListData(object):
    """Sequence of chunks: ('e', value) for one element, ('s', seqterm, elemcls) for an unknown run."""
    __slots__ = ('chunks',)

    def __init__(self, chunks=()):
        self.chunks = list(chunks)

    @property
    def concrete(self):
        return all(c[0] == 'e' for c in self.chunks)

    def items(self):
        return [c[1] for c in self.chunks]

    def copy(self):
        return ListData(self.chunks)


class DictData(object):
    """Either concrete (items: key -> value, insertion ordered) or symbolic (dom/val arrays)."""
    __slots__ = ('items', 'dom', 'val', 'vcls', 'kcls', 'keyseq')

    def __init__(self, items=None, dom=None, val=None, vcls=None, keyseq=None):
        self.items = items if dom is None else None
        if dom is None and items is None:
            self.items = {}
        self.dom, self.val, self.vcls = dom, val, vcls
        self.kcls = None
        self.keyseq = keyseq      # optional Seq term enumerating the keys

    @property
    def concrete(self):
        return self.dom is None

    def copy(self):
        d = DictData(dict(self.items) if self.items is not None else None, self.dom, self.val, self.vcls, self.keyseq)
        return d


class SetData(object):
    __slots__ = ('items', 'dom', 'strs')

    def __init__(self, items=None, dom=None, strs=False):
        self.items = items if dom is None else None
        if dom is None and items is None:
            self.items = []
        self.dom = dom
        self.strs = strs          # every member is a text

    def copy(self):
        return SetData(list(self.items) if self.items is not None else None, self.dom, self.strs)


class Obj(object):
    """A heap object. `data` is the payload of list/dict/set/exception-like built-in bases."""
    __slots__ = ('oid', 'cls', 'attrs', 'data', 'label', 'birth', 'ghost', 'frozen')

    def __init__(self, oid, cls, label, birth):
        self.oid, self.cls, self.label, self.birth = oid, cls, label, birth
        self.attrs = {}
        self.data = None
        self.ghost = None
        self.frozen = False

    def __repr__(self):
        return '<%s %s>' % (self.cls.name, self.label)


class FuncVal(object):
    def __init__(self, node, scope, module, defaults, kwdefaults, name, owner=None):
        self.node, self.scope, self.module = node, scope, module
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name = name
        self.owner = owner
        self.attrs = {}

    @property
    def qual(self):
        return (self.owner.name + '.' if self.owner else '') + self.name

    def __repr__(self):
        return '<function %s>' % self.qual


class BuiltinFn(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class BoundMethod(object):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self_)


class StaticM(object):
    def __init__(self, f):
        self.f = f


class ClassM(object):
    def __init__(self, f):
        self.f = f


class PropertyV(object):
    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class ModuleVal(object):
    def __init__(self, name, ns=None, getter=None):
        self.name = name
        self.ns = ns if ns is not None else {}
        self.getter = getter

    def __repr__(self):
        return '<module %s>' % self.name


class SuperV(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class IterV(object):
    """An iterable with n elements and get(k); n is a host int or a z3 Int term."""

    def __init__(self, n, get, src=None, off=None, seq=None):
        self.n, self.get = n, get
        self.src = src            # list object iterated over, to refuse mutation during iteration
        self.off = off            # absolute index of element 0, for slices
        self.seq = seq
        self.under = None        # the elements underneath (enumerate)
        self.pos = 0


class PyRaise(Exception):
    """A Python exception raised by the interpreted code."""

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return 'PyRaise(%r)' % (self.exc,)


class Return(Exception):
    def __init__(self, value):
        self.value = value


class Break(Exception):
    pass


class Continue(Exception):
    pass


def is_prim(x):
    return x is None or isinstance(x, (bool, int, float, str, bytes))


class Star(object):
    """An argument list of unknown length, on its way to a *parameter."""

    def __init__(self, obj):
        self.obj = obj
