"""C19: mounted sources are read through their mount point only."""
from .common import *          # noqa: F401,F403
from .common import fn         # noqa: F401

MOUNT = 'pilo.source.mount.Mount'
PATHOF = fn('path_of_source', V, V)          # the path a mounted source gives
ASSUMPTIONS = [
    'the paths of distinct mount points are distinct objects, each a path over its own source (contract of Source.path)',
    'a path over a source of nothing never exists (contract of Path.value for a missing root, C03)',
]


class World(object):
    """A mount source of any number of mount points; two different ones, K and Q, are looked at."""

    def __init__(self, it, key=None):
        self.it = it
        NONE = member(it, 'pilo', 'NONE')
        it.embedded.add(NONE.oid)
        self.none = it.to_V(NONE)
        it.ghost['arrays'] = True
        self.p, _ = new_path(it, 'pathK', [])
        self.q, _ = new_path(it, 'pathQ', [])
        it.embedded.update([self.p.oid, self.q.oid])
        it.ghost['known_refs'] = [self.p, self.q]
        self.path_cls = self.p.cls
        self.path_cls.ns['parts'] = getter(lambda it, o: o.attrs['keys'])

        def setitem(it, a, k):
            n = it.list_len(a[0].attrs['keys'])
            it.setitem(a[0].attrs['keys'], a[1], a[2])

        def delitem(it, a, k):
            it.delitem(a[0].attrs['keys'], a[1])
        self.path_cls.ns['__setitem__'] = BuiltinFn('UnknownPath.__setitem__', setitem)
        self.path_cls.ns['__getitem__'] = BuiltinFn('UnknownPath.__getitem__', lambda it, a, k: it.getitem(a[0].attrs['keys'], a[1]))
        self.path_cls.ns['__delitem__'] = BuiltinFn('UnknownPath.__delitem__', delitem)
        src_cls = self.src_cls = host_class(it, 'MountedSource', [member(it, 'pilo.source', 'Source')], {})

        def opaque(it, o, name):
            # a mounted source, whichever
            if name == 'path':
                return BuiltinFn('path', lambda it, a, k: it.lift(PATHOF(it.to_V(o))))
            return MISSING
        it.ghost['getattr_opaque'] = opaque
        self.src = it.new(member(it, 'pilo.source', 'MountSource'), 'mounts')
        self.srcs = it.new_dict(label='srcs')
        self.dom, self.val, self.ks = z3.Const('mounts.dom', SETS), z3.Const('mounts.val', MAPS), z3.Const('mounts.keys', SEQ)
        self.srcs.data = DictData(dom=self.dom, val=self.val, keyseq=self.ks)
        self.srcs.data.kcls = None
        self.src.attrs['srcs'] = self.srcs
        self.K, self.Q = z3.Const('K', STR), z3.Const('Q', STR)
        it.assume(self.K != self.Q)
        seen, out = {}, {}
        watched = [('K', V.str(self.K), self.p), ('Q', V.str(self.Q), self.q)] + ([('X', key, None)] if key is not None else [])
        for nm, x, path in watched:
            seen[nm] = self.seen(nm, x)
            it.prefix_fns.append(seen[nm])
            it.prefix_facts(z3.IntVal(0), None)
            it.assume(seen[nm].f(z3.Length(self.ks)) == z3.Select(self.dom, x))
            if path is not None:
                it.assume(z3.Implies(z3.Select(self.dom, x), PATHOF(z3.Select(self.val, x)) == it.to_V(path)))

        def cands(it, loop):
            out = {}
            for n, t in loop['cur'].items():
                for nm, x, path in watched:
                    s = seen[nm].f(loop['k'])
                    if t.sort() == SETS:
                        out['has %s %s' % (nm, n)] = z3.Select(t, x) == s
                        v = loop['cur'].get(n.replace('.dom', '.val'))
                        if v is not None:
                            out['path %s %s' % (nm, n)] = z3.Implies(s, z3.Select(v, x) == PATHOF(z3.Select(self.val, x)))
            return out
        it.extra_cands = cands
        # the path under an unknown mount point: over a source of nothing
        Missing = host_class(it, 'MissingPath', [self.path_cls], {
            'exists': getter(lambda it, o: False), 'is_null': getter(lambda it, o: False),
            'value': getter(lambda it, o: NONE)})
        D = member(it, 'pilo.source', 'DefaultSource')

        def default_path(it, f, a, k):
            it.prove('the path under unknown mount points is over a source of nothing', same(it, a[0].attrs.get('data', MISSING), NONE))
            m = it.new(Missing, 'missing')
            m.attrs['keys'] = it.new_list([], 'missing.keys')
            m.attrs['src'] = a[0]
            self.missing = m
            return m
        it.contracts['pilo.source.default.DefaultSource.path'] = default_path

    def seen(self, nm, x):
        f = PrefixFn('seen' + nm, BOOL, z3.BoolVal(False), lambda k: z3.Or(f.f(k), self.ks[k] == x))
        return f

    def open(self):
        it = self.it
        self.m = it.call(it.getattr(self.src, 'path'), [])
        return self.m


STEPS = '''
def push(m, key):
    m.append(key)

def last(m, key):
    m[-1] = key

def pop(m, key):
    return m.pop()

def delete(m, key):
    del m[-1]
'''


def truth_is(it, x, want):
    return (z3.BoolVal(x) if isinstance(x, bool) else x.t) == want


class Root(Harness):
    name = 'root'
    functions = (MOUNT + 'Source.path', MOUNT + 'Path.__init__', MOUNT + 'Path.exists', MOUNT + 'Path.is_null', MOUNT + 'Path.value',
                 MOUNT + 'Path.primitive', MOUNT + 'Path.sequence', MOUNT + 'Path.mapping', MOUNT + 'Path.__len__')
    covers = ('done',)

    def root(self, it, w, m, when=''):
        SE = member(it, 'pilo.source', 'SourceError')
        r = attempt(it, lambda: it.getattr(m, 'exists'))
        it.prove('the root exists' + when, r.ok and same(it, r.value, True))
        r = attempt(it, lambda: it.getattr(m, 'is_null'))
        it.prove('the root is not null' + when, r.ok and same(it, r.value, False))
        for what, args in (('primitive', []), ('primitive', [it.B['str']]), ('sequence', [])):
            r = attempt(it, lambda: it.call(it.getattr(m, what), args))
            it.prove('the root is no %s%s' % (what, when), not r.ok and it.exc_matches(r.exc, SE))
        r = attempt(it, lambda: it.call(it.getattr(m, 'mapping'), []))
        it.prove('the root is a mapping' + when, r.ok)
        if r.ok:
            for x in (V.str(w.K), V.str(w.Q)):
                h = it.contains(r.value, it.lift(x))
                h = z3.BoolVal(h) if isinstance(h, bool) else h
                it.prove('of the mount points' + when, h == z3.Select(w.dom, x))
        r = attempt(it, lambda: it.length(m))
        it.prove('the root has no keys' + when, r.ok and same(it, r.value, 0))

    def run(self, it):
        w = World(it)
        m = w.open()
        it.cover('done')
        self.root(it, w, m)
        it.prove('the mounts are as they were', z3.And(it.dict_arrays(w.srcs)[0] == w.dom, it.dict_arrays(w.srcs)[1] == w.val))


class Under(Root):
    """Under the mount point K (mounted or not), with any remaining keys."""
    functions = Root.functions
    covers = ('mounted', 'unknown')

    def __init__(self, what):
        self.what = what
        self.name = 'under-' + what
        fs = {'len': '__len__'}
        self.functions = (MOUNT + 'Path.path', MOUNT + 'Path.parts', MOUNT + 'Path.' + fs.get(what.split('-')[0], what.split('-')[0]))

    def enter(self, it, w):
        """m is under K, the mounted path has any keys; every other mounted path has none."""
        m = w.open()
        ns = client(it, STEPS)
        it.call(ns['push'], [m, Sym(w.K)])
        self.rest = z3.Const('rest', SEQ)
        self.mounted = it.branch(z3.Select(w.dom, V.str(w.K)))
        self.at = w.p if self.mounted else w.missing
        it.prove('entering a mount point adds no keys below it', z3.Length(it.list_term(self.at.attrs['keys'])) == 0)
        self.at.attrs['keys'] = it.new_list([('s', self.rest, None)], 'keys-below')
        it.cover('mounted' if self.mounted else 'unknown')
        return m, ns

    def others(self, it, w):
        for x in (w.q, w.missing if self.mounted else w.p):
            it.prove('the paths of other mount points are left alone', z3.Length(it.list_term(x.attrs['keys'])) == 0)

    def run(self, it):
        w = World(it)
        m, ns = self.enter(it, w)
        s = self.rest
        what, _, typ = self.what.partition('-')
        if what == 'len':
            r = attempt(it, lambda: it.length(m))
            it.prove('the length counts all keys', r.ok and it.eq_term(r.value, Sym(z3.Length(s) + 1)))
        elif what in ('exists', 'is_null', 'value'):
            r = attempt(it, lambda: it.getattr(m, what))
            it.prove('reading does not raise', r.ok)
            if not r.ok:
                return
            if not self.mounted:
                it.prove('nothing is under an unknown mount point', same(it, r.value, False if what != 'value' else member(it, 'pilo', 'NONE')))
            elif what == 'exists':
                it.prove('existence is the mounted source\'s', truth_is(it, r.value, P_EXISTS(s)))
            elif what == 'is_null':
                it.prove('nullness is the mounted source\'s', truth_is(it, r.value, z3.And(P_EXISTS(s), P_NULL(s))))
            else:
                it.prove('the value is the mounted source\'s', it.to_V(r.value) == P_VALUE(s))
        elif self.mounted:
            types = {'': [], 'str': [it.B['str']], 'int': [it.B['int']], 'two': [it.B['int'], it.B['str']]}[typ]
            r = attempt(it, lambda: it.call(it.getattr(m, what), types))
            tag = types_tag(it, types)
            good = {'primitive': P_OK(s, tag), 'sequence': P_SEQOK(s), 'mapping': P_MAPOK(s)}[what]
            it.prove('it answers when that source does', good == r.ok)
            if r.ok:
                if what == 'primitive':
                    it.prove('the answer is that source\'s', it.to_V(r.value) == P_PRIM(s, tag))
                elif what == 'sequence':
                    it.prove('the answer is that source\'s', it.int_term(r.value) == P_SEQLEN(s))
                else:
                    it.prove('the answer is that source\'s', it.list_term(r.value) == P_KEYS(s))
            else:
                it.prove('the error is that source\'s', it.exc_matches(r.exc, member(it, 'pilo.source', 'SourceError')))
        it.prove('reading keeps the keys', it.list_term(self.at.attrs['keys']) == s)
        self.others(it, w)


class Edit(Under):
    covers = ('mounted', 'unknown')

    def __init__(self, op, kind):
        self.op, self.kind = op, kind
        self.name = 'edit-%s-%s' % (op, kind)
        self.functions = (MOUNT + 'Path.__setitem__', MOUNT + 'Path.__delitem__', MOUNT + 'Path.insert', MOUNT + 'Path.__getitem__')

    def run(self, it):
        key = z3.Const('key', STR if self.kind == 'str' else INT)
        kv = V.str(key) if self.kind == 'str' else V.int(key)
        w = World(it, kv)
        # the key is a mount point looked at, or none (mount points are texts)
        it.assume(z3.Or(kv == V.str(w.K), kv == V.str(w.Q), z3.Not(z3.Select(w.dom, kv))))
        if not it.branch(kv == V.str(w.K)):
            it.branch(kv == V.str(w.Q))
        m, ns = self.enter(it, w)
        s = self.rest
        empty = it.branch(z3.Length(s) == 0)
        r = attempt(it, lambda: it.call(ns[self.op], [m, Sym(key)]))
        it.prove('the edit succeeds', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        keys = lambda o: it.list_term(o.attrs['keys'])          # noqa: E731
        n = it.length(m)
        if self.op == 'push':
            last = it.getitem(self.at.attrs['keys'], -1)
            it.prove('the key is added at the end of that source\'s keys', z3.Length(keys(self.at)) == z3.Length(s) + 1)
            it.prove('after those it had', z3.SubSeq(keys(self.at), 0, z3.Length(s)) == s)
            it.prove('as given', same(it, self.keyof(it, last), Sym(key)))
            it.prove('the length counts it', it.eq_term(n, Sym(z3.Length(s) + 2)))
        elif empty:
            it.prove('the source\'s own path keeps no keys', z3.Length(keys(self.at)) == 0)
            if self.op == 'last':
                it.prove('the length is one', same(it, n, 1))
                to = it.getattr(m, 'path')
                if self.kind == 'int':
                    it.prove('no such mount point', to is w.missing)
                elif it.branch(key == w.Q):
                    if it.branch(z3.Select(w.dom, V.str(w.Q))):
                        it.prove('the other source is selected', self.is_(it, to, w.q))
                    else:
                        it.prove('no such mount point', to is w.missing)
                elif it.branch(key == w.K):
                    it.prove('the same source is selected', self.is_(it, to, self.at))
            else:
                it.prove('the root is reached', same(it, n, 0))
                self.root(it, w, m, ' again')
        else:
            t = keys(self.at)
            up = z3.Length(s) - 1
            it.prove('the keys before are kept', z3.SubSeq(t, 0, up) == z3.SubSeq(s, 0, up))
            it.prove('how many remain', z3.Length(t) == (up + 1 if self.op == 'last' else up))
            if self.op == 'last':
                it.prove('the last one is as given', same(it, self.keyof(it, it.getitem(self.at.attrs['keys'], -1)), Sym(key)))
            it.prove('the length counts them', it.eq_term(n, Sym(z3.Length(t) + 1)))
            it.prove('the mount point is kept', self.is_(it, it.getattr(m, 'path'), self.at))
        self.others(it, w)

    def keyof(self, it, x):
        """(a mounted path takes keys as they are or as parts)"""
        if isinstance(x, Obj) and x.cls is member(it, 'pilo.source', 'PathPart'):
            return it.getattr(x, 'key')
        return x

    def is_(self, it, x, o):
        return same(it, x, o)


class Construct(Harness):
    """Mount points given as sources, mappings or None, any number of them."""
    name = 'construct'
    functions = (MOUNT + 'Source.__init__',)
    covers = ('done',)

    def run(self, it):
        DEF = fn('default_source_of', V, V)
        Source = member(it, 'pilo.source', 'Source')
        dom, val, ks = z3.Const('given.dom', SETS), z3.Const('given.val', MAPS), z3.Const('given.keys', SEQ)
        some = z3.Const('some', V)
        it.loader.modules['pilo.source.mount'].ns['DefaultSource'] = BuiltinFn(
            'DefaultSource', lambda it, a, k: it.lift(DEF(it.to_V(a[0]))))
        is_src = lambda v: isa(it, it.lift(v), Source)          # noqa: E731
        fine = lambda v: z3.Or(is_src(v), isa(it, it.lift(v), it.B['dict']), v == V.none)          # noqa: E731
        at = fn('index_of_key', V, INT)
        want = lambda v: z3.If(is_src(v), v, DEF(v))          # noqa: E731

        def extra(k):
            v = z3.Select(val, ks[k])
            return [z3.Implies(z3.And(k >= 0, k < z3.Length(ks)), z3.And(fine(v), z3.Select(dom, ks[k]), at(ks[k]) == k)),
                    is_src(DEF(v))]
        it.prefix_fns.append(PrefixFn('count', INT, z3.IntVal(0), lambda k: k + 1, extra))
        it.prefix_facts(z3.IntVal(0), None)
        x = z3.Const('x', V)
        it.assume(z3.Implies(z3.Select(dom, some), z3.And(at(some) >= 0, at(some) < z3.Length(ks), ks[at(some)] == some)))

        def cands(it, loop):
            out = {}
            for n, t in loop['cur'].items():
                if t.sort() == MAPS:
                    out['done ' + n] = z3.ForAll([x], z3.Select(t, x) == z3.If(
                        z3.And(at(x) >= 0, at(x) < loop['k'], ks[at(x)] == x), want(z3.Select(val, x)), z3.Select(val, x)))
                elif t.sort() == SETS:
                    out['dom ' + n] = t == dom
            return out
        it.extra_cands = cands
        given = it.new_dict(label='given')
        given.data = DictData(dom=dom, val=val, keyseq=ks)
        ns = client(it, 'def make(cls, given):\n    return cls(**given)\n')
        r = attempt(it, lambda: it.call(ns['make'], [member(it, 'pilo.source', 'MountSource'), given]))
        it.cover('done')
        it.prove('it does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        d, v = it.dict_arrays(it.getattr(r.value, 'srcs'))
        it.prove('the mount points are those given', z3.Select(d, some) == z3.Select(dom, some))
        it.prove('each with its source', z3.Implies(z3.Select(d, some), z3.Select(v, some) == want(z3.Select(val, some))))


HARNESSES = [Root(), Construct()] + [Under(x) for x in ('len', 'exists', 'is_null', 'value', 'primitive', 'primitive-str', 'primitive-int',
                                                        'primitive-two', 'sequence', 'mapping')] + [
    Edit(op, k) for op in ('push', 'last') for k in ('str', 'int')] + [Edit('pop', 'str'), Edit('delete', 'str')]
