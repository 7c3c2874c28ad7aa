"""Mapping a field in an arbitrary context: preconditions, hooks as unknown clients, and the observable outcome."""
from .common import *          # noqa: F401,F403
from .common import fn         # noqa: F401

FIELDS = 'pilo.fields.'
HOOKS = ('compute', 'resolve', 'parse', 'default', 'munge', 'filter', 'validate')
CLIENT = '''
import contextlib

def compute(self):
    return h_compute(self)

def default(self):
    return h_default(self)

def parse(self, path):
    return h_parse(self, path)

def munge(self, value):
    return h_munge(self, value)

def filter(self, value):
    return h_filter(self, value)

def validate(self, value):
    return h_validate(self, value)

def key_filter(self, key):
    return h_key_filter(self, key)

@contextlib.contextmanager
def scope():
    yield

def resolve(self):
    h_resolve(self)
    return scope()
'''


class World(object):
    """One unknown moment at which a field is mapped.

    The context is an unknown stack of frames below the frame of the mapped form, which binds the current path (an unknown
    path, `path0` its keys), the error collector (holding unknown errors `errors0`) and the two ignore flags.
    """

    def __init__(self, it, name='w', form=True, raise_errors=False):
        self.it = it
        self.fields = it.loader.modules['pilo.fields'].ns
        self.NONE, self.ERROR, self.NOT_SET = (member(it, 'pilo', n) for n in ('NONE', 'ERROR', 'NOT_SET'))
        for o in (self.NONE, self.ERROR, self.NOT_SET):
            it.embedded.add(o.oid)
        self.none, self.error, self.not_set = (it.to_V(o) for o in (self.NONE, self.ERROR, self.NOT_SET))
        self.IGNORE = [self.none, self.error, self.not_set]
        self.ignore_default = z3.Const('ignore_default', BOOL)
        self.ignore_missing = z3.Const('ignore_missing', BOOL)
        self.path, self.p0 = new_path(it)
        self.e0 = z3.Const('errors0', SEQ)
        self.errors = it.instantiate(self.fields['CollectErrors'], [], {})
        self.errors.data = ListData([('s', self.e0, None)])
        self.form = it.new(host_class(it, 'ClientForm', None, {'__bool__': lambda it, a, k: Sym(z3.Const('form_is_true', BOOL))}), 'the-form') if form else None
        Frame = member(it, 'pilo.context', 'Frame')
        top = it.instantiate(Frame, [], {
            'src': it.new(it.ghost['path_src_cls'], 'the-source'), 'src_path': self.path, 'errors': self.errors, 'form': self.form,
            'parent': self.form, 'ignore_default': Sym(self.ignore_default), 'ignore_missing': Sym(self.ignore_missing)})
        self.top = top
        self.ctx, self.stack, self.s0 = context(it, [('e', top)])
        for n in ('Missing', 'Invalid', 'tags'):
            it.assume(z3.Not(BHAS(self.s0, z3.StringVal(n))))
        use_lookup_contract(it)
        self.trace = []
        self.hooks = {}
        self.ns = client(it, CLIENT, **dict(('h_' + h, self.hook(h)) for h in HOOKS + ('key_filter',)))
        self.raises = {}

    # -------------------------------------------------------------- hooks
    def hook(self, name):
        def call(it, a, k):
            return self.on_hook(name, a)
        return call

    def on_hook(self, name, a):
        """The client's hook `name` is called: anything may come back, and it may raise."""
        it = self.it
        i = sum(1 for t in self.trace if t[0] == name)
        rec = [name, a, keys_of(it, self.path), None]
        self.trace.append(rec)
        exc = self.raises.get(name)
        if exc:
            how = it.choose(len(exc) + 1)
            if how:
                rec[3] = exc[how - 1]
                if rec[3] == 'SourceError':
                    e = it.make_exc(member(it, 'pilo.source', 'SourceError'), 'unreadable')
                    e.attrs['path'], e.attrs['message'] = self.path, 'unreadable'
                    raise PyRaise(e)
                it.raise_exc(rec[3], 'client')
        if name in ('filter', 'validate', 'key_filter'):
            r = z3.Const('%s_%d' % (name, i), BOOL)
            return it.lift(r)
        return it.lift(z3.Const('%s_%d' % (name, i), V))

    def result_of(self, name, i=0):
        return z3.Const('%s_%d' % (name, i), BOOL if name in ('filter', 'validate', 'key_filter') else V)

    def register(self, field, *hooks):
        """Use the field's hooks as decorators, as a client would."""
        for h in hooks:
            self.it.call(self.it.getattr(field, h), [self.ns[h]])

    def attach(self, field, name='the_name'):
        it = self.it
        it.set_attr_raw(field, 'parent', self.form)
        it.set_attr_raw(field, 'name', name)
        return field

    # -------------------------------------------------------------- outcome
    def is_marker(self, t):
        return z3.Or([t == m for m in self.IGNORE])

    def no_value(self, v):
        """v is one of the markers."""
        t = self.it.to_V(v)
        return self.is_marker(t)

    def new_errors(self):
        """The errors recorded since the start, as objects; None when the old ones were touched."""
        ch = self.errors.data.chunks
        if not ch:
            return None if not self.it.entails(z3.Length(self.e0) == 0) else []
        if ch[0][0] == 's' and ch[0][1].eq(self.e0):
            rest = ch[1:]
        elif self.it.entails(z3.Length(self.e0) == 0):
            rest = ch
        else:
            return None
        if any(c[0] != 'e' for c in rest):
            return None
        return [c[1] for c in rest]

    def restored(self, what=''):
        it = self.it
        it.prove('the context stack is restored' + what, it.list_term(self.ctx.attrs['stack']) == z3.Concat(
            self.s0, z3.Unit(it.to_V(self.top))))
        it.prove('the path is restored' + what, keys_of(it, self.path) == self.p0)

    def expect_error(self, e, cls, field, keys, text=None):
        """e is the error `cls` of `field` at the path with `keys`."""
        it = self.it
        ok = isinstance(e, Obj) and e.cls is self.fields[cls]
        it.prove('the error is %s' % cls, ok)
        if not ok:
            return
        it.prove('the error names its field', it.getattr(e, 'field', None) is field)
        msg = it.str_term(it.py_str(e))
        at = z3.Concat(P_STR(keys), z3.StringVal(' - '))
        if cls == 'Missing':
            it.prove('the error is at the field\'s path', msg == z3.Concat(at, z3.StringVal('missing')))
        else:
            it.prove('the error is at the field\'s path', msg == z3.Concat(at, it.str_term(it.py_str(it.getattr(e, 'violation')))))

    def same_calls(self, want):
        """The hooks were called exactly as `want`: [(name, args after self, keys or None)]."""
        it = self.it
        got = self.trace
        ok = [g[0] for g in got] == [w[0] for w in want]
        it.prove('exactly the due hooks run, in order', ok, info='%s instead of %s' % ([g[0] for g in got], [w[0] for w in want]))
        if not ok:
            return
        for g, w in zip(got, want):
            it.prove('hook %s is called with the form' % w[0], g[1][0] is self.form)
            it.prove('hook %s sees the previous step\'s result' % w[0], len(g[1]) == 1 + len(w[1]) and z3.And(
                [z3.BoolVal(True)] + [same(it, x, y) for x, y in zip(g[1][1:], w[1])]))
            if w[2] is not None:
                it.prove('hook %s runs at the field\'s path' % w[0], g[2] == w[2])


def isin(it, lst, v):
    """v in lst, by the engine's own meaning of membership."""
    b = it.contains(lst, v)
    return b if isinstance(b, bool) else it.branch(b.t if isinstance(b, Sym) else b)
