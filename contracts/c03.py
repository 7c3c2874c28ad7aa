"""C03: the value of a path is the lookup of its keys from the root, whatever is cached."""
from .common import *          # noqa: F401,F403
from .common import fn         # noqa: F401

PATH = 'pilo.source.Path.'
RES = fn('resolve', V, V, V)           # resolve(container, part): contract of the subclasses' resolve (C04)
ASSUMPTIONS = [
    'a source\'s resolve(container, part) is a function of the container and of the keys down to the part (its contract, C04)',
    'the parts of one path are distinct objects, created by the path itself',
]


def setup(it, n_extra=0):
    """A path over an unknown source with unknown parts, some of them cached consistently."""
    Path = member(it, 'pilo.source', 'Path')
    Part = member(it, 'pilo.source', 'PathPart')
    NONE = member(it, 'pilo', 'NONE')
    NOT_SET = member(it, 'pilo', 'NOT_SET')
    none, not_set = it.to_V(NONE), it.to_V(NOT_SET)
    it.embedded.update([NONE.oid, NOT_SET.oid])
    Part.ns['__opaque_attrs__'] = {'key': 'V', 'value': 'V'}

    def resolve(it, a, k):
        r = RES(it.to_V(a[1]), it.to_V(a[2]))
        it.assume(r != not_set)
        return it.lift(r)
    cls = host_class(it, 'ClientPath', [Path], {'resolve': resolve})
    root = z3.Const('root', V)
    it.assume(root != not_set)
    p = it.instantiate(cls, [it.new(host_class(it, 'ClientSource', [member(it, 'pilo.source', 'Source')], {})),
                             it.lift(root)], {})
    s = z3.Const('parts0', SEQ)
    n = z3.Length(s)
    it.set_attr_raw(p, 'parts', it.new_list([('s', s, Part)], 'parts'))
    VAL = PrefixFn('lookup', V, root, None)
    VAL.step = lambda i: z3.If(VAL.f(i) == none, none, RES(VAL.f(i), s[i]))
    j = z3.Int('j')
    it.assume(z3.And(0 <= j, j < n))
    arr0 = it.field_array('value')

    def inv_at(arr, i):
        return z3.Or(z3.Select(arr, s[i]) == not_set, z3.Select(arr, s[i]) == VAL.f(i + 1))

    def extra(x):
        out = []
        for y in (x, n - 1 - x):
            out += [z3.Implies(z3.And(0 <= y, y < n), inv_at(arr0, y)),
                    z3.Implies(z3.And(0 <= y, y < n, y != j), s[y] != s[j]),
                    RES(VAL.f(y), s[y]) != not_set,
                    # lemma (induction): what is under a missing part is missing
                    z3.Implies(z3.And(0 <= y, y <= n, VAL.f(y) == none), VAL.f(n) == none),
                    z3.Implies(z3.And(0 <= y, y < n, VAL.f(y) == none), VAL.f(y + 1) == none)]
        return out
    VAL.extra = extra
    it.prefix_fns = [VAL]
    for f in extra(z3.IntVal(0)) + extra(j) + extra(n - 1) + VAL.facts(n - 1):
        it.assume(f)

    def cands(it, l):
        a = it.fields.get('value')
        return {} if a is None else {'cache at j': inv_at(a, j)}
    it.extra_cands = cands
    return p, s, n, j, VAL, inv_at, root, none


class Read(Harness):
    functions = (PATH + 'value', PATH + 'exists', PATH + 'is_null')
    covers = ('done',)

    def __init__(self, what):
        self.what = what
        self.name = 'read-' + what
        self.functions = (PATH + 'value', PATH + what)

    def run(self, it):
        p, s, n, j, VAL, inv_at, root, none = setup(it)
        # the induction behind the lemma used above
        x = z3.Int('x')
        it.prove('lemma: missing stays missing', z3.Implies(VAL.f(x) == none, VAL.step(x) == none))
        r = attempt(it, lambda: it.getattr(p, self.what))
        it.cover('done')
        it.prove('reading does not raise', r.ok)
        if not r.ok:
            return
        goal = {'value': lambda: it.to_V(r.value) == VAL.f(n),
                'exists': lambda: z3.BoolVal(r.value) == (VAL.f(n) != none) if isinstance(r.value, bool)
                else r.value.t == (VAL.f(n) != none),
                'is_null': lambda: it.is_ident(r.value, True) if False else (
                    z3.BoolVal(r.value) if isinstance(r.value, bool) else r.value.t) == (VAL.f(n) == V.none)}[self.what]()
        it.prove('%s is that of the lookup from the root' % self.what, goal)
        it.prove('the caches stay consistent', inv_at(it.field_array('value'), j))
        it.prove('reading keeps the keys', z3.And(it.list_term(p.attrs['parts']) == s,
                                                  z3.Select(it.field_array('key'), s[j]) == z3.Select(
                                                      z3.Const('fld0_key', MAPS), s[j])))
        it.prove('reading keeps the root', it.to_V(p.attrs['root']) == root)


class ReadRoot(Harness):
    name = 'read-root'
    functions = (PATH + 'value',)
    covers = ('done',)

    def run(self, it):
        Path = member(it, 'pilo.source', 'Path')
        root = z3.Const('root', V)
        p = it.instantiate(Path, [None, it.lift(root)], {})
        r = attempt(it, lambda: it.getattr(p, 'value'))
        it.cover('done')
        it.prove('the empty path reads the root', r.ok and same(it, r.value, it.lift(root)))
        it.prove('nothing is added', len(it.list_term(p.attrs['parts']).children()) == 0
                 and it.list_term(p.attrs['parts']) == z3.Empty(SEQ))


class Edit(Harness):
    """append / replace last / remove last: exactly that edit, the new part uncached, every other cache untouched."""
    functions = (PATH + '__setitem__', PATH + '__delitem__', PATH + 'insert', 'pilo.source.PathPart.__init__')
    covers = ('done',)

    def __init__(self, op, kind):
        self.op, self.kind = op, kind
        self.name = 'edit-%s-%s' % (op, kind)

    def run(self, it):
        p, s, n, j, VAL, inv_at, root, none = setup(it)
        key = Sym(z3.Const('key', STR if self.kind == 'str' else INT))
        ns = client(it, '''
def append(p, key):
    p.append(key)

def replace(p, key):
    p[-1] = key

def pop(p, key):
    return p.pop()

def delete(p, key):
    del p[-1]
''')
        arr0 = it.field_array('value')
        r = attempt(it, lambda: it.call(ns[self.op], [p, key]))
        it.cover('done')
        it.prove('the edit succeeds', r.ok)
        if not r.ok:
            return
        t = it.list_term(p.attrs['parts'])
        keep = n if self.op == 'append' else n - 1
        it.prove('earlier parts are kept', z3.Extract(t, z3.IntVal(0), keep) == z3.Extract(s, z3.IntVal(0), keep))
        it.prove('length', z3.Length(t) == (keep + 1 if self.op in ('append', 'replace') else keep))
        it.prove('caches untouched', z3.Select(it.field_array('value'), s[j]) == z3.Select(arr0, s[j]))
        if self.op in ('append', 'replace'):
            last = it.getitem(p, -1)
            it.prove('the new part has the key', same(it, it.getattr(last, 'key'), key))
            it.prove('the new part is not cached', same(it, it.getattr(last, 'value'), member(it, 'pilo', 'NOT_SET')))
        it.prove('length is the number of parts', it.eq_term(it.length(p), Sym(z3.Length(t)))
                 if True else None)


HARNESSES = [Read('value'), Read('exists'), Read('is_null'), ReadRoot()] + [
    Edit(op, k) for op in ('append', 'replace') for k in ('str', 'int')] + [Edit('pop', 'str'), Edit('delete', 'str')]
