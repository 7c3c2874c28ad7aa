"""C18: form classes list their fields once, in declared order."""
from .forms import *          # noqa: F401,F403

ASSUMPTIONS = ['inspect.getmembers gives exactly the attributes of a class which satisfy its predicate, and getmro its bases in method '
               'resolution order', 'list.sort is a stable sort by its key']
ATTACHED = fn('attached_before', V, BOOL)
COUNT = fn('creation_count', V, INT)
SORTED = fn('sorted_by_count', SEQ, SEQ)
HASF = fn('base_has_attribute', V, BOOL)
ATTR = fn('base_attribute', V, V)


class Lists(Harness):
    """A class with any number of field attributes (own or inherited, one field under several names or not)."""
    functions = (FIELDS + 'FormMeta.__new__',)
    name = 'fields of a class'
    covers = ('made',)

    def run(self, it):
        w = World(it)
        M, N = z3.Const('members', SEQ), z3.Const('member_names', SEQ)
        n = z3.Length(M)
        it.assume(z3.Length(N) == n)
        attached = it.new(it.B['set'], 'attached')
        attached.data = SetData(dom=z3.Const('attached0', SETS))
        a0 = z3.Const('attached0', SETS)
        log = it.new_list([], 'attach-log')
        made = []

        def attach(it, a, k):
            c, nm = a[1], a[2] if len(a) > 2 else k.get('name')
            it.prove('fields are attached to the new class', isinstance(c, ClassVal) and c.name == 'Made')
            it.set_add(attached, a[0])
            it.list_append(log, (a[0], nm))
            return a[0]
        fc = host_class(it, 'AField', [w.fields['Field']], {
            'is_attached': getter(lambda it, o: it.lift(z3.Select(attached.data.dom, o.t))), 'attach': attach,
            '_count': getter(lambda it, o: it.lift(COUNT(o.t)))})
        asked = []

        def getmembers(it, a, k):
            pred = a[1] if len(a) > 1 else k['predicate']
            asked.append(a[0])
            x = it.lift(z3.Const('some_field', V), fc)
            it.assume(V.is_ref(x.t))
            it.prove('every field is listed', it.truth(it.call(pred, [x])))
            for y in (None, 'text', it.new(it.B['object'], 'no field'), w.fields['Field']):
                it.prove('nothing else is', not it.truth(it.call(pred, [y])))
            return IterV(n, lambda k: (it.lift(V.s(N[k])), it.seq_elem(M, z3.IntVal(k) if isinstance(k, int) else k, fc)))
        it.loader.bi.modules['inspect'].ns['getmembers'] = BuiltinFn('getmembers', getmembers)

        def sort(it, src, key, reverse):
            if isinstance(src, Obj) and src.data.concrete:
                return NotImplemented
            x = it.lift(z3.Const('some_field', V), fc)
            it.prove('fields are ordered by their place', key is not None and it.to_V(it.call(key, [x])) == V.int(COUNT(x.t)))
            it.prove('first to last', reverse is False)
            return it.new_list([('s', SORTED(it.list_term(src)), fc)], 'sorted-fields')
        it.ghost['sort'] = sort
        att = PrefixFn('attached', SETS, a0, lambda k: z3.Store(att.f(k), M[k], True))
        ids = PrefixFn('field_ids', SETS, z3.K(V, z3.BoolVal(False)), lambda k: z3.Store(ids.f(k), V.int(V.rid(M[k])), True))
        fields = PrefixFn('distinct_fields', SEQ, z3.Empty(SEQ), lambda k: z3.If(z3.Select(ids.f(k), V.int(V.rid(M[k]))), fields.f(k), z3.Concat(
            fields.f(k), z3.Unit(M[k]))))
        logf = PrefixFn('attach_log', SEQ, z3.Empty(SEQ), lambda k: z3.If(z3.Select(att.f(k), M[k]), logf.f(k), z3.Concat(
            logf.f(k), z3.Unit(V.pair(M[k], N[k])))), lambda k: [V.is_str(N[k])])
        it.prefix_fns += [att, ids, fields, logf]

        def cands(it, loop):
            k = loop['k']
            out = {'one': z3.Select(att.f(k + 1), M[k])}
            for nm, t in loop['cur'].items():
                if t.sort() == SETS:
                    x = z3.Const('some_ref', V)
                    out['ids ' + nm] = z3.Implies(V.is_ref(x), z3.Select(t, x) == z3.Select(att.f(k), x))
            return out
        r = attempt(it, lambda: client(it, 'import pilo\n\nclass Made(pilo.Form):\n    pass\n')['Made'])
        if not asked:
            raise Unsupported('the attributes of the class are found in another way')
        it.cover('made')
        it.prove('making a class does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        it.prove('its own attributes are looked at', asked == [r.value])
        got = it.getattr(r.value, 'fields')
        it.prove('each field once, ordered by place', it.list_term(got) == SORTED(fields.f(n)))
        it.prove('each field not attached yet is attached under its name, once', it.list_term(log) == logf.f(n))


class Attach(Harness):
    """Attaching a field to a class with any number of bases."""
    functions = (FIELDS + 'Field.attach',)
    covers = ('over a field', 'new')

    def __init__(self, src):
        self.src = src
        self.name = 'attach-' + src

    def run(self, it):
        w = World(it)
        B = z3.Const('bases', SEQ)
        nb = z3.Length(B)
        F = w.fields['Field']

        def attr(it, o):
            b = o.t
            if not it.branch(HASF(b)):
                it.raise_exc('AttributeError', 'a')
            return it.lift(ATTR(b))
        bc = host_class(it, 'ABase', [it.B['type']], {'a': getter(attr)})

        def opaque(it, o, name):
            if name == '_count':
                return it.lift(COUNT(o.t))
            return MISSING
        it.ghost['getattr_opaque'] = opaque
        cls = client(it, FORM)['TheForm']
        asked = []

        def getmro(it, a, k):
            asked.append(a[0])
            return it.new_list([('e', a[0]), ('s', B, bc)], 'mro')
        it.loader.bi.modules['inspect'].ns['getmro'] = BuiltinFn('getmro', getmro)
        f = it.instantiate(F, [], {})
        own = z3.Const('own_count', INT)
        it.set_attr_raw(f, '_count', Sym(own))
        key = z3.Const('own_src', STR)
        if self.src != 'unset':
            it.set_attr_raw(f, 'src', {'own': Sym(key), 'none': None}[self.src])
        hit = lambda k: z3.And(HASF(B[k]), it.isinst_term(ATTR(B[k]), F))          # noqa: E731
        FIRST = z3.Const('first_hit', INT)
        any_ = PrefixFn('any_hit', BOOL, z3.BoolVal(False), lambda k: z3.Or(any_.f(k), hit(k)), lambda k: [
            FIRST >= 0, FIRST <= nb, z3.Implies(FIRST < nb, hit(FIRST)), z3.Implies(z3.And(k >= 0, k < FIRST), z3.Not(hit(k)))])
        it.prefix_fns.append(any_)
        it.prefix_facts(z3.IntVal(0), None)
        it.extra_cands = lambda it, loop: {'k<=FIRST': loop['k'] <= FIRST}
        r = attempt(it, lambda: it.call(it.getattr(f, 'attach'), [cls, 'a']))
        if not asked:
            raise Unsupported('the bases are found in another way')
        it.prove('attaching does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        it.prove('it gives back the field', r.value is f)
        it.prove('it belongs to the class', it.getattr(f, 'parent') is cls)
        it.prove('under its name', it.getattr(f, 'name') == 'a')
        it.prove('its source key is its own, else its name', same(it, it.getattr(f, 'src'), {'unset': 'a', 'own': Sym(key), 'none': None}[self.src]))
        c = it.to_V(it.getattr(f, '_count'))
        if it.branch(FIRST < nb):
            it.cover('over a field')
            it.prove('it takes the place of the inherited field', c == V.int(COUNT(ATTR(B[FIRST]))))
        else:
            it.cover('new')
            it.prove('it keeps its own place', c == V.int(own))


class Created(Harness):
    """Fields are created in order."""
    functions = (FIELDS + 'CreatedCountMixin.__init__', FIELDS + 'Field.__init__')
    name = 'creation order'
    covers = ('done',)

    def run(self, it):
        w = World(it)
        n = z3.Const('created_so_far', INT)
        member(it, 'pilo.fields', 'CreatedCountMixin').ns['_created_count'] = Sym(n)
        a = it.instantiate(w.fields['Field'], [], {})
        b = it.instantiate(w.fields['Integer'], [], {})
        it.cover('done')
        ca, cb = it.to_V(it.getattr(a, '_count')), it.to_V(it.getattr(b, '_count'))
        it.prove('a field comes after those made before', z3.And(V.is_int(ca), V.i(ca) > n))
        it.prove('and before those made later', z3.And(V.is_int(cb), V.i(cb) > V.i(ca)))


class FromFields(Harness):
    """A form class of given fields (any number, under any names)."""
    covers = ('made',)

    def __init__(self, how, n=None):
        self.how, self.n = how, n
        self.name = 'from_fields-' + how + ('' if n is None else '-%d' % n)
        self.bounded = n is not None
        self.functions = (FIELDS + ('SubForm' if how == 'sub form' else 'Form') + '.from_fields',)

    def run(self, it):
        w = World(it)
        form = w.fields['Form']
        fc = host_class(it, 'AField', [w.fields['Field']], {})
        made = []

        def new_class(it, f, a, k):
            c = host_class(it, 'Made', [form], {})
            made.append((c, it.to_host_list(a[2]), a[3]))
            return c
        base = client(it, FORM)['TheForm'] if self.how == 'derived' else form
        it.contracts[FIELDS + 'FormMeta.__new__'] = new_class
        it.ghost['new_class'] = lambda it, meta, name, bases, d: new_class(it, None, (meta, name, tuple(bases), d), {})
        by = w.fields['SubForm'] if self.how == 'sub form' else base
        if self.n is None:
            dom, val = z3.Const('given.dom', SETS), z3.Const('given.val', MAPS)
            d = it.new_dict(label='given')
            d.data = DictData(dom=dom, val=val)
            kw = {'**': d}
            x = V.str(z3.Const('some_name', STR))
            ks = d.data.keyseq = z3.Const('names', SEQ)
            seen = PrefixFn('seen', BOOL, z3.BoolVal(False), lambda k: z3.Or(seen.f(k), ks[k] == x))
            it.prefix_fns.append(seen)
            it.prefix_facts(z3.IntVal(0), None)
            it.assume(seen.f(z3.Length(ks)) == z3.Select(dom, x))

            def cands(it, loop):
                out = {}
                for nm, t in loop['cur'].items():
                    if t.sort() == SETS:
                        out['has ' + nm] = z3.Select(t, x) == seen.f(loop['k'])
                        v = loop['cur'].get(nm.replace('.dom', '.val'))
                        if v is not None:
                            out['val ' + nm] = z3.Implies(seen.f(loop['k']), z3.Select(v, x) == z3.Select(val, x))
                return out
            it.extra_cands = cands
        else:
            given = {'f%d' % i: it.new(fc, 'field%d' % i) for i in range(self.n)}
            kw = dict(given)
        r = attempt(it, lambda: it.call(it.getattr(by, 'from_fields'), [], kw))
        it.prove('it does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        it.cover('made')
        it.prove('one class is made', len(made) == 1)
        if len(made) != 1:
            return
        c, bases, ns = made[0]
        it.prove('derived from the one asked', len(bases) == 1 and bases[0] is base)
        if self.n is None:
            d2, v2 = it.dict_arrays(ns)
            it.prove('with a field under a name exactly when one is given', z3.Select(d2, x) == z3.Select(dom, x))
            it.prove('which is the one given', z3.Implies(z3.Select(dom, x), z3.Select(v2, x) == z3.Select(val, x)))
        else:
            got = ns.data.items
            it.prove('with the fields given', {k for k, x in got.items() if isinstance(x, Obj) and x.cls is fc} == set(given) and all(
                got[k] is given[k] for k in given))
        if self.how == 'sub form':
            it.prove('a sub form', r.value.cls is by)
            it.prove('of that class', it.getattr(r.value, 'form_type') is c)
        else:
            it.prove('that class', r.value is c)


FALLBACK = [FromFields(h, n) for h in ('form', 'derived', 'sub form') for n in (0, 1, 2, 3)]
HARNESSES = [FromFields(h) for h in ('form', 'derived', 'sub form')] + [Lists()] + [Attach(s) for s in ('unset', 'own', 'none')] + [Created()]
