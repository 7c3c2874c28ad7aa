"""C16: unions merge their sources as configured."""
from .common import *          # noqa: F401,F403
from .common import fn         # noqa: F401

U = 'pilo.source.union.'
PS = z3.Const('paths', SEQ)                    # the paths of the sources, any number
EX = fn('path_exists_', V, BOOL)
KEYSOF = fn('path_keys', V, V)                 # what path.mapping() gives
HASKEY = fn('keys_have', V, V, BOOL)
KEYSEQ = fn('keys_listed', V, SEQ)
LEN = fn('path_length', V, INT)                # what path.sequence() gives
PRIM = fn('path_primitive', V, STR, V)
LAST = fn('last_part', V, V)                   # the last part of a path
TAIL = fn('further_keys', V, V, V)
ASSUMPTIONS = [
    'the value of every source at a key is not null and of one kind, the same in every source that has it (the statement)',
    'the root of every source is there; a new path of a source is at its root, of length 0',
    'the paths of a union are distinct objects, each with parts of its own; reading one does not change what it reads',
]
MERGES = ('first', 'last', 'combine')


class World(object):
    def __init__(self, it):
        self.it = it
        NONE = member(it, 'pilo', 'NONE')
        it.embedded.add(NONE.oid)
        self.NONE, self.none = NONE, it.to_V(NONE)
        self.NOT_SET = member(it, 'pilo', 'NOT_SET')
        it.embedded.add(self.NOT_SET.oid)
        it.ghost['arrays'] = True
        n = self.n = z3.Length(PS)
        self.log = it.new_list([], 'edits')
        Part = self.Part = member(it, 'pilo.source', 'PathPart')
        Part.ns['__opaque_attrs__'] = {'key': 'V', 'value': 'V'}
        Keys = host_class(it, 'AKeysView', None, {
            '__contains__': lambda it, a, k: it.lift(HASKEY(a[0].t, it.to_V(a[1]))),
            '__iter__': lambda it, a, k: self.keys_iter(a[0].t),
        })
        Keys.ns['__len__'] = BuiltinFn('len', lambda it, a, k: it.lift(z3.Length(KEYSEQ(a[0].t))))

        def index(it, a, k):
            if a[1] != -1:
                raise Unsupported('another part of a path')
            return it.lift(LAST(a[0].t), Part)

        def edit(what):
            def f(it, a, k):
                if k:
                    raise Unsupported('keywords')
                it.list_append(self.log, (a[0], (what,) + tuple(a[1:])))
                return None
            return f

        def put(it, a, k):
            """Replaces the last part by one of this key."""
            p, i, v = a
            if i != -1:
                raise Unsupported('another part of a path')
            if isinstance(v, Obj) and v.cls is Part:
                v = it.getattr(v, 'key')
            last = it.lift(LAST(p.t), Part)
            it.setattr(last, 'key', v)
            it.setattr(last, 'value', self.NOT_SET)

        def sequence(it, a, k):
            it.assume(LEN(a[0].t) >= 0)
            return it.lift(LEN(a[0].t))
        Path = member(it, 'pilo.source', 'Path')
        self.path_cls = host_class(it, 'APath', None, {
            'exists': getter(lambda it, o: it.lift(EX(o.t))), 'is_null': getter(lambda it, o: False),
            'mapping': lambda it, a, k: it.lift(KEYSOF(a[0].t), Keys),
            'sequence': sequence,
            'primitive': lambda it, a, k: it.lift(PRIM(a[0].t, types_tag(it, a[1:]))),
            '__len__': lambda it, a, k: 0, '__getitem__': index,
            'insert': edit('insert'), '__setitem__': put, '__delitem__': edit('del'), 'append': edit('append'), 'pop': edit('pop'),
        })
        # what is taken out of a list of pairs
        it.ghost['contains_opaque'] = lambda it, c, x: HASKEY(c.t, it.to_V(x))
        it.ghost['iter_opaque'] = lambda it, o: self.keys_iter(o.t)
        it.ghost['getattr_opaque'] = lambda it, o, name: it.getattr(it.lift(o.t, self.path_cls), name)
        it.ghost['getitem_opaque'] = lambda it, o, i: it.getitem(it.lift(o.t, self.path_cls), i)
        it.ghost['setitem_opaque'] = lambda it, o, i, v: put(it, [o, i, v], {})
        self.ref = PrefixFn('count', INT, z3.IntVal(0), lambda k: k + 1, lambda k: [
            z3.Implies(z3.And(k >= 0, k < n), V.is_ref(PS[k]))])
        it.prefix_fns.append(self.ref)
        it.prefix_facts(z3.IntVal(0), None)

    def keys_iter(self, v):
        s = KEYSEQ(v)
        return self.it.iterate(self.it.seq_list(s))

    def paths(self):
        return self.it.new_list([('s', PS, self.path_cls)], 'paths')

    def source(self, merge, mapping=None, sequence=None):
        it = self.it
        return it.instantiate(member(it, 'pilo.source', 'UnionSource'), [it.new_list([], 'no-sources')], {
            'merge': merge, 'mapping_merge': mapping, 'sequence_merge': sequence})

    def holder(self, value):
        """A path whose value was read and found to be `value`."""
        it = self.it
        h = it.new(host_class(it, 'AUnionPath', None, {}), 'path')
        h.attrs['value'] = value
        return h

    def there(self, what, value, cond):
        """When `cond`, a path of the union whose value was found to be `value` is there and is not null."""
        it = self.it
        p = it.new(member(it, 'pilo.source', 'UnionPath'), 'path-there')
        part = it.instantiate(self.Part, ['some key'], {})
        it.setattr(part, 'value', value)
        it.set_attr_raw(p, 'parts', it.list_of([part]))
        it.set_attr_raw(p, 'root', self.NONE)
        if not it.branch(cond):
            return
        for name, ok in (('exists', True), ('is_null', False)):
            r = attempt(it, lambda: it.getattr(p, name))
            it.prove(what + (' is there' if ok else ' is not null'), r.ok and same(it, r.value, ok))

    def merged(self, merge, what):
        """The paths merged, in order, each with what `what` says of it."""
        few = [] if merge == 'combine' else [lambda k: z3.Length(f.f(k)) <= 1]          # (by its definition)
        f = PrefixFn('merged', SEQ, z3.Empty(SEQ), None, lambda k: [g(k) for g in few])
        pair = lambda k: z3.Unit(V.pair(PS[k], what(PS[k])))          # noqa: E731
        new = {'combine': lambda k: z3.Concat(f.f(k), pair(k)), 'last': pair,
               'first': lambda k: z3.If(z3.Length(f.f(k)) == 0, pair(k), f.f(k))}[merge]
        f.step = lambda k: z3.If(EX(PS[k]), new(k), f.f(k))
        self.it.prefix_fns.append(f)
        self.it.prefix_facts(z3.IntVal(0), None)
        return f


class MappingKey(Harness):
    """A mapping of the union: which paths a key of it is read from."""
    functions = (U + 'UnionSource.mapping', U + 'Join.mapping', U + 'Mapping.__init__', U + 'Mapping.__getitem__', U + 'UnionPath.resolve', U + 'UnionPath.is_null',
                 U + 'UnionSource.__init__')
    covers = ('there', 'nothing')

    def __init__(self, merge, how):
        self.merge, self.how = merge, how
        self.name = 'mapping-%s-%s' % (merge, how)

    def source(self, w):
        other = 'first' if self.merge != 'first' else 'last'
        return {'general': lambda: w.source(self.merge), 'own': lambda: w.source(other, mapping=self.merge),
                'not-sequence': lambda: w.source(self.merge, sequence=other)}[self.how]()

    def setup(self, it):
        w = World(it)
        src = self.source(w)
        join = it.instantiate(member(it, 'pilo.source.union', 'Join'), [src, w.paths()], {})
        h = w.holder(join)
        M = w.merged(self.merge, KEYSOF)
        m = M.f(w.n)
        if self.merge == 'first':
            first_stays(it, w, M, m, KEYSOF)
        r = attempt(it, lambda: it.call(it.getattr(src, 'mapping'), [h]))
        it.prove('it is a mapping', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        return w, src, h, m, r

    def run(self, it):
        w, src, h, m, r = self.setup(it)
        if not r.ok:
            return
        key = z3.Const('key', V)
        it.assume(V.is_str(key))
        sel = PrefixFn('having_key', SEQ, z3.Empty(SEQ), lambda k: z3.If(HASKEY(V.snd(m[k]), key), z3.Concat(
            sel.f(k), z3.Unit(V.fst(m[k]))), sel.f(k)), lambda k: [
                z3.Implies(z3.And(k >= 0, k < z3.Length(m)), z3.And(V.is_pair(m[k]), V.is_ref(V.fst(m[k])), V.is_ref(V.snd(m[k]))))])
        it.prefix_fns.append(sel)
        it.prefix_facts(z3.IntVal(0), None)
        want = sel.f(z3.Length(m))
        p = it.new(member(it, 'pilo.source', 'UnionPath'), 'union-path')
        part = it.instantiate(w.Part, [it.lift(key)], {})
        r = attempt(it, lambda: it.call(it.getattr(p, 'resolve'), [it.getattr(h, 'value'), part]))
        it.prove('a key is looked up without an error', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        if it.branch(z3.Length(want) > 0):
            it.cover('there')
            J = member(it, 'pilo.source.union', 'Join')
            it.prove('a key of the merged mappings is there', isinstance(r.value, Obj) and r.value.cls is J)
            if isinstance(r.value, Obj) and r.value.cls is J:
                got = it.list_term(it.getattr(r.value, 'paths'))
                it.prove('read from the merged sources having it, in order', got == want)
                it.prove('of this union', it.getattr(r.value, 'src') is src)
                # a primitive comes from the first of them
                types, tag = [([], 'None'), ([it.B['str']], 'str'), ([it.B['int'], it.B['float']], 'int,float')][it.choose(3)]
                w.there('a key which some source has', r.value, z3.BoolVal(True))
                h2 = w.holder(r.value)
                x = attempt(it, lambda: it.call(it.getattr(src, 'primitive'), [h2] + types))
                it.prove('a primitive is read from the first of them', x.ok and it.to_V(x.value) == PRIM(want[0], z3.StringVal(tag)))
                x = attempt(it, lambda: it.call(it.getattr(src, 'primitive'), [h2, it.B['bool']]))
                it.prove('another type may be asked for afterwards', x.ok and it.to_V(x.value) == PRIM(want[0], z3.StringVal('bool')))
        else:
            it.cover('nothing')
            it.prove('any other key is not there', same(it, r.value, w.NONE))
        it.prove('no path was changed', z3.Length(it.list_term(w.log)) == 0)
        w.there('a mapping, once opened,', it.getattr(h, 'value'), z3.Length(m) > 0)


class MappingKeys(MappingKey):
    """The keys of a mapping of the union."""
    functions = (U + 'UnionSource.mapping', U + 'Mapping.__init__', U + 'Mapping.__iter__')
    covers = ('done',)

    def __init__(self, merge):
        self.merge, self.how = merge, 'general'
        self.name = 'mapping-keys-' + merge

    def run(self, it):
        w, src, h, m, r = self.setup(it)
        if not r.ok:
            return
        x = z3.Const('some_key', V)
        it.assume(V.is_str(x))
        some = PrefixFn('some_has_key', BOOL, z3.BoolVal(False), lambda k: z3.Or(some.f(k), HASKEY(V.snd(m[k]), x)), lambda k: [
            z3.Implies(z3.And(k >= 0, k < z3.Length(m)), z3.And(V.is_pair(m[k]), V.is_ref(V.fst(m[k])), V.is_ref(V.snd(m[k]))))])
        # what an enumeration has so far
        IN = fn('listed_before', SEQ, INT, BOOL)
        it.prefix_fns.append(some)
        it.prefix_facts(z3.IntVal(0), None)
        it.ghost['observed_members'] = [x]

        def keys_iter(v):
            it.assume(z3.Contains(KEYSEQ(v), z3.Unit(x)) == HASKEY(v, x))
            return it.iterate(it.seq_list(KEYSEQ(v)))
        w.keys_iter = keys_iter
        old = it.extra_cands

        def cands(it, loop):
            out = old(it, loop) if old else {}
            k, it_ = loop['k'], loop['it']
            s = it_.seq[0][1] if it_ is not None and it_.seq is not None and len(it_.seq) == 1 and it_.seq[0][0] == 's' else None
            if s is not None:
                for f in (z3.Not(IN(s, z3.IntVal(0))), z3.Implies(z3.And(k >= 0, k < z3.Length(s)), IN(s, k + 1) == z3.Or(IN(s, k), s[k] == x)),
                          IN(s, z3.Length(s)) == z3.Contains(s, z3.Unit(x))):
                    it.assume(f)
            for n, t in loop['cur'].items():
                e = loop['entry'].get(n)
                if e is None or t.sort() not in (SEQ, SETS):
                    continue
                has = (lambda t: z3.Contains(t, z3.Unit(x))) if t.sort() == SEQ else (lambda t: z3.Select(t, x))
                out['some ' + n] = has(t) == some.f(k)
                if s is not None:
                    out['in ' + n] = has(t) == z3.Or(has(e), IN(s, k))
            return out
        it.extra_cands = cands
        out = it.new_list([], 'listed')
        r = attempt(it, lambda: it.list_extend(out, r.value) or out)
        it.cover('done')
        it.prove('listing does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if r.ok:
            it.prove('exactly the keys of the merged mappings', z3.Contains(it.list_term(out), z3.Unit(x)) == some.f(z3.Length(m)))


def first_stays(it, w, M, m, what):
    """The first of the merged paths, once found, stays."""
    FIRST = z3.Const('first_existing', INT)
    p = w.ref
    old = p.extra
    p.extra = lambda k: old(k) + [FIRST >= 0, FIRST <= w.n, z3.Implies(FIRST < w.n, EX(PS[FIRST])),
                                  z3.Implies(z3.And(k >= 0, k < FIRST), z3.Not(EX(PS[k]))),
                                  z3.Implies(z3.And(k >= 0, k <= FIRST), z3.Length(M.f(k)) == 0),
                                  m == z3.If(FIRST < w.n, z3.Unit(V.pair(PS[FIRST], what(PS[FIRST]))), z3.Empty(SEQ))]
    it.prefix_facts(z3.IntVal(0), None)
    it.extra_cands = lambda it, loop: {'k<=FIRST': loop['k'] <= FIRST}


class SequenceElement(MappingKey):
    """A sequence of the union: its length, and which path an element is read from."""
    functions = (U + 'UnionSource.sequence', U + 'Join.sequence', U + 'Sequence.__init__', U + 'Sequence.__len__', U + 'Sequence.__getitem__', U + 'UnionPath.is_null',
                 U + 'UnionPath.resolve', U + 'UnionSource.__init__')
    covers = ('there', 'beyond')

    def __init__(self, merge, how):
        self.merge, self.how = merge, how
        self.name = 'sequence-%s-%s' % (merge, how)

    def source(self, w):
        other = 'first' if self.merge != 'first' else 'last'
        return {'general': lambda: w.source(self.merge), 'own': lambda: w.source(other, sequence=self.merge),
                'not-mapping': lambda: w.source(self.merge, mapping=other)}[self.how]()

    def run(self, it):
        w = World(it)
        src = self.source(w)
        join = it.instantiate(member(it, 'pilo.source.union', 'Join'), [src, w.paths()], {})
        h = w.holder(join)
        what = lambda p: V.int(LEN(p))          # noqa: E731
        M = w.merged(self.merge, what)
        m = M.f(w.n)
        if self.merge == 'first':
            first_stays(it, w, M, m, what)
        off = PrefixFn('length_before', INT, z3.IntVal(0), lambda k: off.f(k) + V.i(V.snd(m[k])), lambda k: [
            z3.Implies(z3.And(k >= 0, k < z3.Length(m)), z3.And(V.is_pair(m[k]), V.is_ref(V.fst(m[k])), V.is_int(V.snd(m[k])), V.i(V.snd(m[k])) >= 0))])
        it.prefix_fns.append(off)
        it.prefix_facts(z3.IntVal(0), None)
        total = off.f(z3.Length(m))
        r = attempt(it, lambda: it.call(it.getattr(src, 'sequence'), [h]))
        it.prove('it is a sequence', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        it.prove('as long as the merged sequences together', it.int_term(r.value) == total)
        i = z3.Const('index', INT)
        # every source's path ends with this index (UnionPath.insert), nothing is read of it yet
        it.assume(i >= 0)
        if self.merge != 'combine':
            for f in off.facts(z3.IntVal(0)):
                it.assume(f)
        AT = z3.Const('the_part', INT)
        key, value = it.field_array('key'), it.field_array('value')
        off.extra = (lambda old: lambda k: old(k) + [
            AT >= 0, AT <= z3.Length(m), z3.Implies(AT < z3.Length(m), i < off.f(AT + 1)), z3.Implies(z3.And(k >= 0, k < AT), i >= off.f(k + 1)),
            z3.Implies(z3.And(k > 0, k <= AT), i >= off.f(k)),
            z3.Implies(z3.And(k >= 0, k < z3.Length(m)), z3.Select(key, LAST(V.fst(m[k]))) == V.int(i))])(off.extra)
        it.prefix_facts(z3.IntVal(0), None)
        for f in off.facts(AT):
            it.assume(f)
        old = it.extra_cands
        it.extra_cands = lambda it, loop: dict(old(it, loop) if old else {}, **{'k<=AT': loop['k'] <= AT})
        p = it.new(member(it, 'pilo.source', 'UnionPath'), 'union-path')
        part = it.instantiate(w.Part, [it.lift(i)], {})
        r = attempt(it, lambda: it.call(it.getattr(p, 'resolve'), [it.getattr(h, 'value'), part]))
        it.prove('an element is looked up without an error', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        J = member(it, 'pilo.source.union', 'Join')
        if it.branch(AT < z3.Length(m)):
            it.cover('there')
            it.prove('an index within the length is there', isinstance(r.value, Obj) and r.value.cls is J)
            if isinstance(r.value, Obj) and r.value.cls is J:
                q = V.fst(m[AT])
                it.prove('read from the sequence it falls in', it.list_term(it.getattr(r.value, 'paths')) == z3.Unit(q))
                it.prove('of this union', it.getattr(r.value, 'src') is src)
                it.prove('at the corresponding index of it', it.field_array('key') == z3.Store(key, LAST(q), V.int(i - off.f(AT))))
                other = z3.Const('other_part', V)
                it.prove('no other part was changed', z3.Implies(other != LAST(q), z3.Select(it.field_array('value'), other) == z3.Select(value, other)))
        else:
            it.cover('beyond')
            it.prove('any other index is not there', same(it, r.value, w.NONE))
            it.prove('no part was changed', z3.And(it.field_array('key') == key, it.field_array('value') == value))
        it.prove('no path was changed', z3.Length(it.list_term(w.log)) == 0)
        w.there('a sequence, once opened,', it.getattr(h, 'value'), z3.Length(m) > 0)


class BadMerge(Harness):
    """Any other merge name is a ValueError."""
    covers = ('done',)

    def __init__(self, what):
        self.what = what
        self.name = 'bad-merge-' + what
        self.functions = (U + 'Mapping.__init__',) if what == 'mapping' else (U + 'Sequence.__init__',)

    def run(self, it):
        w = World(it)
        m = z3.Const('merge', STR)
        it.assume(z3.And(z3.Length(m) > 0, *[m != z3.StringVal(x) for x in MERGES]))
        src = w.source(Sym(m))
        join = it.instantiate(member(it, 'pilo.source.union', 'Join'), [src, w.paths()], {})
        # two sources at least have it
        i, j = z3.Const('i', INT), z3.Const('j', INT)
        it.assume(z3.And(i >= 0, j >= 0, i < w.n, j < w.n, i < j, EX(PS[i]), EX(PS[j])))
        seen = PrefixFn('before', INT, z3.IntVal(0), lambda k: k + 1, None)
        L = PrefixFn('found', INT, z3.IntVal(0), lambda k: z3.If(EX(PS[k]), L.f(k) + 1, L.f(k)), lambda k: [
            L.f(k) >= 0, z3.Implies(k > i, L.f(k) >= 1), z3.Implies(k > j, L.f(k) >= 2), z3.Implies(k <= i, L.f(k) >= 0)])
        it.prefix_fns.append(L)
        it.prefix_facts(z3.IntVal(0), None)
        for f in L.facts(w.n):
            it.assume(f)
        it.extra_cands = lambda it, loop: dict(
            ('%s %s' % (nm, n), f) for n, t in loop['cur'].items() if t.sort() == SEQ for nm, f in (
                ('len', z3.Length(t) == L.f(loop['k'])), ('few', L.f(loop['k']) <= 1)))
        r = attempt(it, lambda: it.call(it.getattr(src, self.what), [w.holder(join)]))
        it.cover('done')
        it.prove('another merge name is a ValueError', not r.ok and it.exc_matches(r.exc, it.B['ValueError']))


class EveryPath(Harness):
    """An edit at the end of the union's path is made once to the path of every source."""
    covers = ('done',)

    def __init__(self, op, kind):
        self.op, self.kind = op, kind
        self.name = 'edit-%s-%s' % (op, kind)
        self.functions = (U + 'UnionPath.' + {'append': 'insert', 'replace': '__setitem__'}.get(op, '__delitem__'),)

    def run(self, it):
        w = World(it)
        parts = z3.Const('parts0', SEQ)
        N = z3.Length(parts)
        if self.op != 'append':
            it.assume(N >= 1)
        p = it.new(member(it, 'pilo.source', 'UnionPath'), 'union-path')
        for n, x in (('src', None), ('root', None), ('location', None), ('parts', it.new_list([('s', parts, w.Part)], 'parts')), ('paths', w.paths())):
            it.set_attr_raw(p, n, x)
        key = Sym(z3.Const('key', INT if self.kind == 'int' else STR))
        value = key if self.kind != 'part' else it.instantiate(w.Part, [key], {})
        pair = lambda a, b: V.pair(a, b)          # noqa: E731
        what = {'append': pair(V.str(z3.StringVal('append')), it.to_V(key)), 'replace': pair(V.str(z3.StringVal('replace')), it.to_V(key)),
                'pop': V.str(z3.StringVal('pop')), 'delete': V.str(z3.StringVal('pop'))}[self.op]
        w.edited = PrefixFn('edited', SEQ, z3.Empty(SEQ), lambda k: z3.Concat(w.edited.f(k), z3.Unit(V.pair(PS[k], what))), None)
        it.prefix_fns.append(w.edited)
        it.prefix_facts(z3.IntVal(0), None)

        def log(it, o, what, *more):
            if any(isinstance(x, Obj) and x.cls is w.Part and x is not value for x in more):
                raise Unsupported('a part of its own for every path')
            it.list_append(w.log, (o, (what,) + more if more else what))

        def last(it, i, n):
            if i == -1:
                return
            if not it.entails(it.int_term(i) == n):
                raise Unsupported('an edit at another index')

        def insert(it, a, k):
            if not it.entails(it.int_term(a[1]) >= N):
                raise Unsupported('an insertion at another index')
            log(it, a[0], 'append', a[2])

        def setitem(it, a, k):
            last(it, a[1], N - 1)
            log(it, a[0], 'replace', a[2])

        def delitem(it, a, k):
            last(it, a[1], N - 1)
            log(it, a[0], 'pop')

        def pop(it, a, k):
            if len(a) > 1:
                last(it, a[1], N - 1)
            log(it, a[0], 'pop')
        w.path_cls.ns.update((n, BuiltinFn(n, f)) for n, f in (('insert', insert), ('append', lambda it, a, k: log(it, a[0], 'append', a[1])), (
            'pop', pop), ('__setitem__', setitem), ('__delitem__', delitem)))
        w.path_cls.ns['__len__'] = BuiltinFn('len', lambda it, a, k: it.lift(N))
        ns = client(it, '''
def append(p, value):
    p.append(value)

def replace(p, value):
    p[-1] = value

def pop(p, value):
    p.pop()

def delete(p, value):
    del p[-1]
''')
        r = attempt(it, lambda: it.call(ns[self.op], [p, value]))
        it.cover('done')
        it.prove('the edit succeeds', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        it.prove('once to the path of every source', it.list_term(w.log) == w.edited.f(w.n))
        keep = N if self.op == 'append' else N - 1
        t = it.list_term(p.attrs['parts'])
        it.prove('earlier parts are kept', z3.Extract(t, z3.IntVal(0), keep) == z3.Extract(parts, z3.IntVal(0), keep))
        it.prove('and to its own', z3.Length(t) == (keep + 1 if self.op in ('append', 'replace') else keep))
        if self.op in ('append', 'replace'):
            it.prove('with the key', same(it, it.getattr(it.getitem(p, -1), 'key'), key))
        it.prove('the paths are the same', it.list_term(p.attrs['paths']) == PS)


class BadKind(Harness):
    """A mapping of the union is not a sequence, a sequence not a mapping."""
    covers = ('done',)

    def __init__(self, what):
        self.what = what
        self.name = 'not-a-' + what
        self.functions = (U + 'UnionSource.' + what,)

    def run(self, it):
        w = World(it)
        src = w.source('combine')
        other = it.new(member(it, 'pilo.source.union', 'Sequence' if self.what == 'mapping' else 'Mapping'), 'opened')
        h = w.holder(other)
        r = attempt(it, lambda: it.call(it.getattr(src, self.what), [h]))
        it.cover('done')
        it.prove('it is a source error', not r.ok and it.exc_matches(r.exc, member(it, 'pilo.source', 'SourceError')))
        it.prove('the value is kept', same(it, it.getattr(h, 'value'), other))


class Sources(Harness):
    """The union is of the sources given, mappings as documents; the list given is not modified."""
    functions = (U + 'UnionSource.__init__',)
    covers = ('done', 'bad')

    def __init__(self, how):
        self.how = how
        self.name = 'sources-' + how

    def run(self, it):
        given = z3.Const('given', SEQ)
        n = z3.Length(given)
        it.ghost['arrays'] = True
        WRAP = fn('document_source', V, V)
        DS = member(it, 'pilo.source', 'DefaultSource')
        IS = lambda v: it.isinst_term(v, member(it, 'pilo.source', 'Source'))          # noqa: E731
        ISMAP = lambda v: it.isinst_term(v, member(it, '_collections_abc', 'Mapping'))          # noqa: E731
        made = PrefixFn('made', SEQ, z3.Empty(SEQ), lambda k: z3.Concat(made.f(k), z3.Unit(z3.If(IS(given[k]), given[k], WRAP(given[k])))), lambda k: [
            z3.Length(made.f(k)) == z3.If(k >= 0, k, 0)])
        bad = PrefixFn('bad', BOOL, z3.BoolVal(False), lambda k: z3.Or(bad.f(k), z3.Not(z3.Or(IS(given[k]), ISMAP(given[k])))), lambda k: [
            z3.Implies(z3.And(k >= 0, k < n, bad.f(k + 1)), bad.f(n))])
        it.prefix_fns.extend([made, bad])
        it.prefix_facts(z3.IntVal(0), None)
        for f in made.facts(n):
            it.assume(f)
        it.ghost['instantiate'] = lambda it, c, a, k: it.lift(WRAP(it.to_V(a[0]))) if c is DS and len(a) == 1 and not k else MISSING
        rest = PrefixFn('rest', SEQ, given, lambda k: rest.f(k + 1), lambda k: [
            z3.Implies(z3.And(k >= 0, k < n), rest.f(k) == z3.Concat(z3.Unit(given[k]), rest.f(k + 1))), rest.f(n) == z3.Empty(SEQ),
            z3.Implies(z3.And(k >= 0, k <= n), z3.Length(rest.f(k)) == n - k)])
        it.prefix_fns.append(rest)
        it.prefix_facts(z3.IntVal(0), None)
        it.extra_cands = lambda it, loop: dict(
            ('replaced ' + nm, t == z3.Concat(made.f(loop['k']), rest.f(loop['k']))) for nm, t in loop['cur'].items() if t.sort() == SEQ)
        lst = it.new_list([('s', given, None)], 'given')
        arg = lst if self.how == 'list' else it.iterate(lst) if self.how == 'iterator' else None
        r = attempt(it, lambda: it.instantiate(member(it, 'pilo.source', 'UnionSource'), [arg], {}))
        if it.branch(bad.f(n)):
            it.cover('bad')
            it.prove('anything else is a TypeError', not r.ok and it.exc_matches(r.exc, it.B['TypeError']))
        else:
            it.cover('done')
            it.prove('a union of sources and mappings is made', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
            if r.ok:
                it.prove('of the sources given, in order, mappings as documents', it.list_term(it.getattr(r.value, 'srcs')) == made.f(n))
                it.prove('of its own list', it.getattr(r.value, 'srcs') is not lst)
        it.prove('the list given is not modified', it.list_term(lst) == given)


class Root(Harness):
    """The root of the union has the keys of all sources, whatever the merge settings."""
    functions = (U + 'UnionSource.path', U + 'UnionPath.__init__', U + 'UnionPath.is_null', U + 'Mapping.__init__')
    covers = ('done',)

    def __init__(self, merge):
        self.merge = merge
        self.name = 'root-' + merge

    def run(self, it):
        w = World(it)
        src = w.source(self.merge)
        srcs = z3.Const('sources', SEQ)
        it.assume(z3.And(z3.Length(srcs) == w.n, w.n >= 1))
        PATH = fn('new_path', V, V)
        Src = host_class(it, 'ASource', [member(it, 'pilo.source', 'Source')], {
            'path': lambda it, a, k: it.lift(PATH(a[0].t), w.path_cls)})
        it.set_attr_raw(src, 'srcs', it.new_list([('s', srcs, Src)], 'srcs'))
        M = w.merged('combine', KEYSOF)
        M.extra = lambda k: [z3.Implies(z3.And(k >= 0, k <= w.n), z3.Length(M.f(k)) == k)]          # (every root exists)
        made = PrefixFn('paths_made', SEQ, z3.Empty(SEQ), lambda k: z3.Concat(made.f(k), z3.Unit(PATH(srcs[k]))), lambda k: [
            z3.Implies(z3.And(k >= 0, k < w.n), z3.And(PS[k] == PATH(srcs[k]), EX(PS[k]))), made.f(w.n) == PS])          # (PS is defined so)
        zeros = PrefixFn('zeros', SEQ, z3.Empty(SEQ), lambda k: z3.Concat(zeros.f(k), z3.Unit(V.int(z3.IntVal(0)))), lambda k: [
            z3.Implies(z3.And(k >= 0, k < w.n), zeros.f(w.n)[k] == V.int(z3.IntVal(0))), z3.Implies(k >= 0, z3.Length(zeros.f(k)) == k)])
        it.prefix_fns.extend([made, zeros])
        it.prefix_facts(z3.IntVal(0), None)
        for p in (made, zeros, M):
            for f in p.facts(w.n):
                it.assume(f)
        only = z3.Store(z3.K(V, z3.BoolVal(False)), V.int(z3.IntVal(0)), z3.BoolVal(True))
        it.assume(it.set_size(only) == 1)
        it.extra_cands = lambda it, loop: dict(
            ('only 0 ' + nm, t == z3.If(loop['k'] > 0, only, z3.K(V, z3.BoolVal(False)))) for nm, t in loop['cur'].items() if t.sort() == SETS)
        r = attempt(it, lambda: it.call(it.getattr(src, 'path'), []))
        it.cover('done')
        it.prove('a path is made', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        it.prove('at the root', it.eq_term(it.length(r.value), 0))
        it.prove('over a new path of every source, in order', it.list_term(it.getattr(r.value, 'paths')) == PS)
        root = it.getattr(r.value, 'value')
        it.prove('which is a mapping', isinstance(root, Obj) and root.cls is member(it, 'pilo.source.union', 'Mapping'))
        if isinstance(root, Obj) and root.cls is member(it, 'pilo.source.union', 'Mapping'):
            it.prove('of all sources', it.list_term(it.getattr(root, 'mappings')) == M.f(w.n))
            it.prove('of this union', it.getattr(root, 'src') is src)
            for name, ok in (('exists', True), ('is_null', False)):
                x = attempt(it, lambda: it.getattr(r.value, name))
                it.prove('the root is ' + ('there' if ok else 'not null'), x.ok and same(it, x.value, ok))
        it.prove('no path was changed', z3.Length(it.list_term(w.log)) == 0)


HARNESSES = [MappingKey(m, h) for m in MERGES for h in ('general', 'own', 'not-sequence')] + [MappingKeys(m) for m in MERGES] + [
    SequenceElement(m, h) for m in MERGES for h in ('general', 'own', 'not-mapping')] + [
    BadMerge(x) for x in ('mapping', 'sequence')] + [
    EveryPath(op, k) for op in ('append', 'replace') for k in ('str', 'int', 'part')] + [EveryPath('pop', 'str'), EveryPath('delete', 'str')] + [
    BadKind(x) for x in ('mapping', 'sequence')] + [Sources('list')] + [Root(m) for m in MERGES]
