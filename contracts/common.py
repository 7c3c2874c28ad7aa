"""Shared vocabulary of the contracts: ghost state of contexts, paths and error collectors."""
import z3
from pyvc.values import *          # noqa: F401,F403
from pyvc.values import fn         # noqa: F401
from pyvc.interp import PrefixFn   # noqa: F401

# ---------------------------------------------------------------- ghost observers
FHAS = fn('frame_has', V, STR, BOOL)         # name bound by a context frame
FGET = fn('frame_get', V, STR, V)
BHAS = fn('base_has', SEQ, STR, BOOL)        # name bound by some frame of the unknown outer stack
BGET = fn('base_get', SEQ, STR, V)


class Harness(object):
    """One contract: `run` sets up the precondition, calls the real code, proves the postcondition."""
    name = '?'
    functions = ()          # the functions of /repo this contract is on
    bound = 2               # unrolling used when the unbounded proof is lost
    deadline = 120
    timeout = 8000
    covers = ()             # cover points every run must reach (vacuity guard)
    bounded = False         # True: never counted as proved without bound

    def run(self, it):
        raise NotImplementedError

    def concretize(self, it, model):
        return None


class Outcome(object):
    """How a call ended."""

    def __init__(self, value=MISSING, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None


def attempt(it, f):
    try:
        return Outcome(f())
    except PyRaise as e:
        return Outcome(exc=e.exc)


def mod(it, name):
    return it.loader.modules[name]


def member(it, m, name):
    return it.loader.modules[m].ns[name]


def host_class(it, name, bases, methods, module=None):
    """A specification class whose methods are host functions (a ghost object's contract)."""
    ns = {}
    for k, f in methods.items():
        ns[k] = BuiltinFn('%s.%s' % (name, k), f) if callable(f) and not isinstance(f, (PropertyV, BuiltinFn)) else f
    c = ClassVal(name, bases or [it.B['object']], ns, None, it.loader.harness_module)
    it.register_class(c)
    return c


def getter(f):
    return PropertyV(BuiltinFn('get', lambda it, a, k: f(it, a[0])))


def client(it, text, **ghosts):
    """Interpreted client code; `ghosts` are host functions visible to it."""
    src = text
    m = ModuleVal('client')
    m.ns['__name__'] = 'client'
    for k, v in ghosts.items():
        m.ns[k] = BuiltinFn(k, v) if callable(v) and not isinstance(v, (BuiltinFn, ClassVal, Obj)) else v
    it.loader.modules['client'] = m
    import ast
    from pyvc.interp import Scope
    sc = Scope(m)
    it.cur_module_stack.append(m)
    try:
        for n in ast.parse(src).body:
            it.st(n, sc)
    finally:
        it.cur_module_stack.pop()
    return m.ns


def list_eq(it, o, seq):
    """The list object's content equals a sequence term."""
    return it.list_term(o) == seq


def isa(it, x, cls):
    b = it.isinstance_(x, cls)
    return b if isinstance(b, bool) else b.t


def same(it, a, b):
    """a and b are the same value (identity for objects, equality of primitives)."""
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, float) and isinstance(b, float):
        return z3.BoolVal(a == b or (a != a and b != b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And([z3.BoolVal(True)] + [same(it, x, y) for x, y in zip(a, b)])
    try:
        return it.to_V(a) == it.to_V(b)
    except Unsupported:
        return z3.BoolVal(False)


# ---------------------------------------------------------------- contexts
def frame_class(it):
    """An unknown context frame: a mapping observed through FHAS/FGET."""
    Frame = member(it, 'pilo.context', 'Frame')

    def get(it, a, k):
        key = it.str_term(a[1])
        if not it.branch(FHAS(a[0].t, key)):
            it.raise_exc('KeyError', a[1])
        return it.lift(FGET(a[0].t, key))

    def get_default(it, a, k):
        key = it.str_term(a[1])
        if not it.branch(FHAS(a[0].t, key)):
            return a[2] if len(a) > 2 else None
        return it.lift(FGET(a[0].t, key))
    c = host_class(it, 'UnknownFrame', [Frame], {
        '__contains__': lambda it, a, k: it.lift(FHAS(a[0].t, it.str_term(a[1]))),
        '__getitem__': get,
        'get': get_default,
    })
    return c


def context(it, chunks=None, base=True):
    """The thread's context over an unknown outer stack; returns (ctx object, stack list, base term)."""
    ctx = member(it, 'pilo.context', 'ctx')
    fc = frame_class(it)
    s = z3.Const('stack0', SEQ)
    ch = []
    if base:
        it.assume(z3.Length(s) >= 1)
        ch.append(('s', s, fc))
    st = it.new_list(ch + list(chunks or []), 'ctx.stack')
    it.set_attr_raw(ctx, 'stack', st)
    it.ghost['ctx_base'] = s
    return ctx, st, s


def use_lookup_contract(it, typed=None):
    """Callers see Context.__getattr__ through its contract (proved by C01): the innermost binding."""
    typed = typed or {}

    def lookup(it, f, args, kwargs):
        o, k = args
        if not isinstance(k, str):
            raise Unsupported('context lookup of a symbolic name')
        st = o.attrs['stack']
        for c in reversed(st.data.chunks):
            if c[0] == 'e':
                h = it.contains(c[1], k)
                if h is True or (h is not False and it.branch(h)):
                    return it.getitem(c[1], k)
            else:
                key = z3.StringVal(k)
                # (class invariant: the frame of the mapped form binds `src_path`, `src`, ...; `typed`
                # names are those the harness requires to be bound in the outer stack)
                if k in typed or it.branch(BHAS(c[1], key)):
                    if k in typed:
                        return typed[k](it, BGET(c[1], key))
                    return it.lift(BGET(c[1], key))
        it.raise_exc('AttributeError', k)
    it.contracts['pilo.context.Context.__getattr__'] = lookup


# ---------------------------------------------------------------- paths
P_EXISTS = fn('path_exists', SEQ, BOOL)
P_NULL = fn('path_is_null', SEQ, BOOL)
P_VALUE = fn('path_value', SEQ, V)
P_OK = fn('path_primitive_ok', SEQ, STR, BOOL)       # types tag
P_PRIM = fn('path_primitive', SEQ, STR, V)
P_SEQOK = fn('path_sequence_ok', SEQ, BOOL)
P_SEQLEN = fn('path_sequence', SEQ, INT)
P_MAPOK = fn('path_mapping_ok', SEQ, BOOL)
P_KEYS = fn('path_mapping', SEQ, SEQ)
P_MSG = fn('path_error_message', SEQ, STR, STR)
P_STR = fn('path_str', SEQ, STR)


def types_tag(it, types):
    out = []
    for t in types:
        out.append('None' if t is None else t.name if isinstance(t, ClassVal) else '?')
    return z3.StringVal(','.join(out) if types else 'None')


#: what a primitive of a given type is (contract of Source.primitive, proved by C05)
PRIM_KIND = {'str': V.is_str, 'int': V.is_int, 'float': V.is_flt, 'bool': V.is_bool}


def path_class(it):
    """A path over an unknown source: the contract of Path/Source that fields rely on.

    Its state is its key sequence; everything observed is a function of that sequence.
    """
    SE = member(it, 'pilo.source', 'SourceError')
    def path(it, a, k):
        p = it.new(it.ghost['path_cls'], 'root-path-of-%s' % a[0].label)
        p.attrs['keys'] = it.new_list([], 'root-path-keys')
        p.attrs['src'] = a[0]
        return p
    src_cls = host_class(it, 'UnknownSource', [member(it, 'pilo.source', 'Source')], {'path': path})

    def keys(o):
        return o.attrs['keys']

    def st(it, o):
        return it.list_term(keys(o))

    def unkey(it, v):
        return v

    def append(it, a, k):
        it.list_append(keys(a[0]), a[1])

    def pop(it, a, k):
        return it.list_pop(keys(a[0]), *a[1:])

    def insert(it, a, k):
        it.list_insert(keys(a[0]), a[1], a[2])

    def raise_src(it, o, what):
        s = st(it, o)
        e = it.make_exc(SE, Sym(P_MSG(s, z3.StringVal(what))))
        e.attrs['path'] = o
        e.attrs['message'] = e.data[0]
        raise PyRaise(e)

    def primitive(it, a, k):
        o, types = a[0], a[1:]
        tag = types_tag(it, types)
        s = st(it, o)
        if not it.branch(P_OK(s, tag)):
            raise_src(it, o, 'primitive:' + tag.as_string())
        v = P_PRIM(s, tag)
        n = tag.as_string()
        if n in PRIM_KIND:
            it.assume(PRIM_KIND[n](v))
        return it.lift(v)

    def sequence(it, a, k):
        s = st(it, a[0])
        if not it.branch(P_SEQOK(s)):
            raise_src(it, a[0], 'sequence')
        it.assume(P_SEQLEN(s) >= 0)
        return it.lift(P_SEQLEN(s))

    def mapping(it, a, k):
        s = st(it, a[0])
        if not it.branch(P_MAPOK(s)):
            raise_src(it, a[0], 'mapping')
        return it.seq_list(P_KEYS(s), it.ghost.get('key_cls'))

    def getvalue(it, o):
        s = st(it, o)
        t = P_VALUE(s)
        NONE = member(it, 'pilo', 'NONE')
        it.assume((t == V.none) == z3.And(P_EXISTS(s), P_NULL(s)))
        it.embedded.add(NONE.oid)
        it.assume((t == it.to_V(NONE)) == z3.Not(P_EXISTS(s)))
        return it.lift(t)
    c = host_class(it, 'UnknownPath', None, {
        'append': append, 'pop': pop, 'insert': insert,
        '__len__': lambda it, a, k: it.list_len(keys(a[0])),
        '__str__': lambda it, a, k: it.lift(P_STR(st(it, a[0]))),
        'primitive': primitive, 'sequence': sequence, 'mapping': mapping,
        'exists': getter(lambda it, o: it.lift(P_EXISTS(st(it, o)))),
        'is_null': getter(lambda it, o: it.lift(P_NULL(st(it, o)))),
        'value': getter(getvalue),
    })
    it.ghost['path_src_cls'] = src_cls
    return c


def new_path(it, name='path0', chunks=None):
    c = it.ghost.get('path_cls')
    if c is None:
        c = it.ghost['path_cls'] = path_class(it)
    p = it.new(c, name)
    base = z3.Const(name, SEQ)
    p.attrs['keys'] = it.new_list([('s', base, None)] if chunks is None else chunks, name + '.keys')
    src = it.new(it.ghost['path_src_cls'], name + '.src')
    p.attrs['src'] = src
    return p, base


def keys_of(it, p):
    return it.list_term(p.attrs['keys'])
