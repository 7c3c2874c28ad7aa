"""C12: mapping a form stores exactly the fields that mapped successfully."""
from .forms import *          # noqa: F401,F403
from .opening import OPENING

ASSUMPTIONS = ['tags are equal exactly when they are the same value']


GIVEN = ('dict', 'list', 'tuple', 'no source')


class Stores(FormMap):
    covers = ('mapped', 'not a mapping')

    def __init__(self, mode, tags, reset, stored, where=''):
        #: where: the tags are the argument, or in the context, or the argument with others in the context
        self.mode, self.tags, self.reset, self.stored, self.where = mode, tags, reset, stored, where
        self.name = '%s-%s-%s-%s' % (mode, 'all' if tags is None else tags if tags == 'unknown' else '%s%d' % tags,
                                     'reset' if reset else 'keep', 'stored' if stored else 'new') + (where and '-' + where)

    def run(self, it):
        w = self.setup(it, stored=self.stored)
        tags, selected = self.make_tags(it, self.tags)
        kw = {'reset': self.reset}
        if self.mode == 'root':
            src = it.new(it.ghost['path_src_cls'], 'given-source')
            it.embedded.add(src.oid)
            kw['src'] = src
            here, at = z3.Empty(SEQ), z3.Unit(it.to_V(src))
        elif self.mode in GIVEN:
            src = self.given(it, w, kw)
            here, at = z3.Empty(SEQ), z3.Unit(it.to_V(src))
        else:
            here = at = w.p0
        if self.where == 'over':
            w.top.data.items['tags'] = it.list_of([Sym(z3.Const('other tag', STR))])
        if self.where == 'context':
            w.top.data.items['tags'] = tags
        elif tags is not None:
            kw['tags'] = tags
        self.spec(it, at, selected, self.reset)
        r = attempt(it, lambda: it.call(it.getattr(self.form, 'map'), [], kw))
        w.restored()
        if not it.branch(P_MAPOK(here)):
            it.cover('not a mapping')
            it.prove('data that is no mapping is a source error', not r.ok and it.exc_matches(r.exc, member(it, 'pilo.source', 'SourceError')))
            self.content(it, self.rdom.f(self.n) if self.reset else self.dom0, self.val0, ' (nothing mapped)')
            return
        it.cover('mapped')
        it.prove('mapping does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        self.content(it, self.dom.f(self.n), self.val.f(self.n))

    def given(self, it, w, kw):
        """Mapping native data: from a source for it (`Sources` below), made by the form."""
        data = {'dict': lambda: it.new_dict({'k': Sym(z3.Const('datum', INT))}), 'list': lambda: it.list_of([1]), 'tuple': lambda: (1,),
                'no source': lambda: None}[self.mode]()
        if self.mode == 'no source':
            # nothing is being mapped
            w.top.data.items['src'] = w.top.data.items['src_path'] = None
        else:
            kw['src'] = data
        src = it.new(it.ghost['path_src_cls'], 'made-source')
        it.embedded.add(src.oid)

        def path(it, a, k):
            x = it.getattr(a[0], 'data')
            if data is None:
                it.prove('read from no data at all', isinstance(x, Obj) and x.cls is it.B['dict'] and it.int_term(it.length(x)) == 0)
            else:
                it.prove('read from exactly the given data', x is data)
            return it.call(it.getattr(src, 'path'), [])
        member(it, 'pilo.source.default', 'DefaultSource').ns['path'] = BuiltinFn('path', path)
        return src


class Sources(Harness):
    """The source a form makes for native data: that data, read by a sequence's index for a field's name."""
    functions = (FIELDS + 'Form._map_source', FIELDS + 'Form._seq_source')
    name = 'sources for data'
    covers = ('mapping', 'sequence')

    def run(self, it):
        cls = client(it, FORM)['TheForm']
        DS = member(it, 'pilo.source.default', 'DefaultSource')
        names = [z3.Const('name%d' % i, STR) for i in range(3)]
        it.assume(z3.Distinct(names))
        Named = host_class(it, 'Named', None, {})
        fields = []
        for n in names[:it.choose(4)]:
            o = it.new(Named, 'field')
            o.attrs['name'] = Sym(n)
            fields.append(o)
        cls.ns['fields'] = it.list_of(fields)
        form = it.instantiate(cls, [], {})
        data = it.new(host_class(it, 'Data', None, {}), 'data')
        seq = it.choose(2)
        it.cover('sequence' if seq else 'mapping')
        s = it.call(it.getattr(form, '_seq_source' if seq else '_map_source'), [data])
        it.prove('a native source', isinstance(s, Obj) and DS in s.cls.mro)
        it.prove('of exactly the data', it.getattr(s, 'data') is data)
        it.prove('nothing is ignored', it.truth(it.getattr(s, 'ignores')) is False)
        al = it.getattr(s, 'aliases')
        if not seq:
            it.prove('without aliases', al is None or it.truth(al) is False)
            return
        d, v = it.dict_arrays(al)
        x = z3.Const('some_name', V)
        it.prove('aliases for exactly the fields', z3.Select(d, x) == z3.Or([x == V.str(n) for n in names[:len(fields)]] + [z3.BoolVal(False)]))
        for i in range(len(fields)):
            it.prove('each for its index', z3.Select(v, V.str(names[i])) == V.int(i))


class Captures(FormMap):
    """unmapped='capture', or a field: the keys the form does not have yet are stored too."""
    functions = FormMap.functions + (FIELDS + 'Form._unmapped', FIELDS + 'Dict._parse', FIELDS + 'String._validate')
    covers = ('mapped',)

    def __init__(self, mode, directive, tags=None):
        self.mode, self.directive, self.tags = mode, directive, tags
        self.name = 'unmapped-%s-%s%s' % (directive, mode, '-tags' if tags else '')

    def run(self, it):
        w = self.setup(it)
        it.ghost['key_cls'] = it.B['str']
        tags, selected = self.make_tags(it, self.tags)
        kw = {}
        if tags is not None:
            kw['tags'] = tags
        if self.mode == 'root':
            src = it.new(it.ghost['path_src_cls'], 'given-source')
            it.embedded.add(src.oid)
            kw['src'] = src
            here, at = z3.Empty(SEQ), z3.Unit(it.to_V(src))
        else:
            here = at = w.p0
        it.assume(z3.And(P_MAPOK(here), P_EXISTS(here), z3.Not(P_NULL(here))))
        ks = P_KEYS(here)
        inner = lambda k: z3.Concat(here, z3.Unit(ks[k]))          # noqa: E731
        if self.directive == 'capture':
            kw['unmapped'] = 'capture'
            tag = z3.StringVal('None')
            cval = lambda k: z3.If(P_NULL(inner(k)), V.none, P_PRIM(inner(k), tag))          # noqa: E731
            # reading a present key as it is: its value, no error
            extra = lambda k: [z3.Implies(z3.And(k >= 0, k < z3.Length(ks)), z3.And(          # noqa: E731
                P_EXISTS(inner(k)), P_OK(inner(k), tag), z3.Not(w.is_marker(P_PRIM(inner(k), tag)))))]
            cerr = lambda k: z3.Empty(SEQ)          # noqa: E731
        elif self.directive == 'field':
            e = self.E.new('capture')
            kw['unmapped'] = e
            cval = lambda k: self.E.value(e, z3.Concat(at, z3.Unit(ks[k])))          # noqa: E731
            extra = None
            cerr = lambda k: self.E.faults(e, z3.Concat(at, z3.Unit(ks[k])))          # noqa: E731
        self.spec(it, at, selected, False)
        mine = self.dom.f(self.n)
        new = lambda k: z3.And(z3.Not(z3.Select(mine, ks[k])), z3.Not(w.is_marker(cval(k))))          # noqa: E731
        cdom = PrefixFn('captured', SETS, z3.K(V, z3.BoolVal(False)), lambda k: z3.If(
            new(k), z3.Store(cdom.f(k), ks[k], True), cdom.f(k)), extra)
        cvals = PrefixFn('captured_values', MAPS, z3.Const('vals0', MAPS), lambda k: z3.If(
            new(k), z3.Store(cvals.f(k), ks[k], cval(k)), cvals.f(k)))
        cfaults = PrefixFn('capture_faults', SEQ, self.faults.f(self.n), lambda k: z3.If(
            z3.Select(mine, ks[k]), cfaults.f(k), z3.Concat(cfaults.f(k), cerr(k))))
        it.prefix_fns += [cdom, cvals, cfaults]
        base = it.extra_cands

        def cands(it, loop):
            out = base(it, loop)
            for n, t in loop['cur'].items():
                if t.sort() == MAPS:
                    d = loop['cur'].get(n.replace('.val', '.dom'))
                    if d is not None:
                        out['cvals ' + n] = z3.Implies(z3.Select(d, self.some), z3.Select(t, self.some) == z3.Select(
                            cvals.f(loop['k']), self.some))
            return out
        it.extra_cands = cands
        r = attempt(it, lambda: it.call(it.getattr(self.form, 'map'), [], kw))
        w.restored()
        it.cover('mapped')
        it.prove('mapping does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        m = z3.Length(ks)
        x = self.some
        d, v = it.dict_arrays(self.form)
        got = z3.Select(cdom.f(m), x)
        it.prove('the form has exactly its fields\' and the captured keys', z3.Select(d, x) == z3.Or(z3.Select(mine, x), got))
        it.prove('captured keys have their captured value', z3.Implies(got, z3.Select(v, x) == z3.Select(cvals.f(m), x)))
        it.prove('other keys have their field\'s value', z3.Implies(z3.And(z3.Select(mine, x), z3.Not(got)),
                                                                    z3.Select(v, x) == z3.Select(self.val.f(self.n), x)))
        it.prove('exactly the due errors', it.list_term(r.value) == (
            self.faults.f(self.n) if self.directive == 'capture' else cfaults.f(m)))


WAYS = ('constructor', 'options', 'positional', 'keywords', 'chained', 'none')


def as_term(b):
    return b.t if isinstance(b, Sym) else b if z3.is_expr(b) else z3.BoolVal(b)


class Tagging(Harness):
    """A field carries exactly the tags it was given, in whatever way."""
    functions = tuple(FIELDS + 'Field.' + n for n in ('__init__', 'options', 'tag', 'has_tag'))
    covers = ('done',)

    def __init__(self, way):
        self.way = way
        self.name = 'tagging-' + way

    def run(self, it):
        w = World(it)
        a, b = z3.Const('tag a', V), z3.Const('tag b', V)
        x = z3.Const('some tag', V)
        for v in (a, b, x):
            it.assume(z3.Or(V.is_str(v), V.is_int(v)))          # (texts and numbers: a value is equal to itself only)
        cls = w.fields['Field']
        call = lambda o, *x, **k: it.call(it.getattr(o, 'tag'), list(x), k)          # noqa: E731
        given = {'constructor': [a], 'options': [a], 'positional': [a, b], 'keywords': [a, V.str(z3.StringVal('c'))],
                 'chained': [a, b, V.str(z3.StringVal('c'))], 'none': []}[self.way]
        f = it.instantiate(cls, [], {'tags': it.lift(a)} if self.way == 'constructor' else {})
        other = it.instantiate(cls, [], {})
        back = f
        if self.way == 'options':
            back = it.call(it.getattr(f, 'options'), [], {'tags': it.lift(a)})
        elif self.way == 'positional':
            back = call(f, it.lift(a), it.lift(b))
        elif self.way == 'keywords':
            back = call(f, it.lift(a), c=1)
        elif self.way == 'chained':
            back = call(call(call(f, it.lift(a)), it.lift(b)), c=1)
        it.prove('tagging gives back the field', back is f)
        it.cover('done')
        has = z3.Or([x == t for t in given]) if given else z3.BoolVal(False)
        for o, want in ((f, has), (other, z3.BoolVal(False))):
            r = attempt(it, lambda: it.call(it.getattr(o, 'has_tag'), [it.lift(x)]))
            it.prove('asking for a tag does not raise', r.ok)
            it.prove('it has exactly the given tags', r.ok and as_term(r.value) == want)
            ks = it.call(it.getattr(it.getattr(o, 'tags'), 'keys'), [])
            it.prove('and is selected by exactly these', as_term(it.contains(ks, it.lift(x))) == want)


HARNESSES = [Tagging(x) for x in WAYS] + [Stores(m, t, r, True) for m in ('nested', 'root') for t in (None, ('set', 1), ('list', 2), 'unknown') for r in (False, True)] + [
    Stores(m, t, r, True, x) for m in ('nested', 'root') for t in (('list', 1), 'unknown') for r in (False, True) for x in ('context', 'over')] + [
    Stores('root', None, False, False), Sources()] + [Stores(m, None, False, True) for m in GIVEN] + OPENING[2:4] + [
    Captures(m, d, t) for m in ('nested', 'root') for d in ('capture', 'field') for t in (None, ('list', 1))]
