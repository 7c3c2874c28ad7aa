"""C17: polymorphic sub forms dispatch on the type field (and sub forms in general: what they add to the enclosing form)."""
from .c11 import *          # noqa: F401,F403

ASSUMPTIONS = ['mapping the chosen form is under its contract (C12, C13): it records the form\'s errors with the collector of the enclosing '
               'form and gives the list of them']
IDOK = fn('identity_readable', V, BOOL)
IDENT = fn('identity', V, V)
FORM_FAULTS = fn('form_faults', V, SEQ, SEQ)
SUBFORM = '''
import pilo

class TheSubForm(pilo.Form):
    pass
'''


class FormTypes(object):
    """Form classes under contract."""

    def __init__(self, it, w, E):
        self.it, self.w, self.E = it, w, E
        self.maps = []
        self.cls = client(it, SUBFORM)['TheSubForm']

        def map_(it, a, k):
            o = a[0]
            it.prove('a form is mapped where it is', len(a) == 1)
            keys = E.here()
            self.maps.append((o, keys, dict(k)))
            faults = FORM_FAULTS(it.to_V(o.attrs['ghost_type']), keys)
            E.fail(it.getattr(w.ctx, 'errors'), faults)
            out = it.instantiate(w.fields['CollectErrors'], [], {})
            it.write_data(out)
            out.data.chunks.append(('s', faults, E.fault_cls()))
            return out
        self.cls.ns['map'] = BuiltinFn('map', map_)

        def make(it, a, k):
            o = it.instantiate(self.cls, list(a[1:]), k)
            o.attrs['ghost_type'] = a[0]
            return o
        #: an unknown form class
        self.some = host_class(it, 'SomeFormClass', None, {'__call__': make})

    def check(self, f, at, value, chosen, reset, unmapped):
        """Mapped with `chosen`: the result, or its errors."""
        it, w = self.it, self.w
        it.prove('exactly one form is mapped', len(self.maps) == 1)
        if len(self.maps) != 1:
            return
        o, keys, kw = self.maps[0]
        it.prove('it is an instance of exactly the chosen class', it.to_V(o.attrs['ghost_type']) == chosen)
        it.prove('mapped from the value', keys == at)
        it.prove('with the sub form\'s options', sorted(kw) == ['reset', 'unmapped'] and z3.And(same(it, kw['reset'], reset), same(it, kw['unmapped'], unmapped)))
        faults = FORM_FAULTS(chosen, at)
        it.prove('exactly its errors are recorded, in place', it.list_term(w.errors) == z3.Concat(w.e0, faults))
        if it.branch(z3.Length(faults) > 0):
            it.cover('faulty')
            it.prove('a form with errors is no value', w.no_value(value))
        else:
            it.cover('mapped')
            it.prove('the result is that form', value is o)


class Polymorphic(Container):
    functions = Container.functions + (FIELDS + 'PolymorphicSubForm.__init__', FIELDS + 'PolymorphicSubForm._parse',
                                       FIELDS + 'PolymorphicSubForm._form_type')
    covers = ('mapped', 'faulty', 'unreadable', 'null', 'unknown')

    def __init__(self, options):
        self.opts = options
        self.name = 'polymorphic' + ('-options' if options else '')

    def build(self, it, w):
        self.F = FormTypes(it, w, self.E)
        self.dom, self.val = z3.Const('types', SETS), z3.Const('type_of', MAPS)
        types = it.new(it.B['dict'], 'types')
        types.data = DictData(dom=self.dom, val=self.val, vcls=self.F.some)
        probed = self.probed = []

        def probe(it, a, k):
            probed.append(it.to_V(a[1]))
            v = it.to_V(a[1])
            if not it.branch(IDOK(v)):
                kind = ['FormError', 'ValueError'][it.choose(2)]
                if kind == 'ValueError':
                    it.raise_exc('ValueError', 'no identity')
                e = it.make_exc(member(it, 'pilo.fields', kind), 'unreadable')
                e.attrs['field_errors'] = ()
                raise PyRaise(e)
            i = IDENT(v)
            it.assume(z3.And(z3.Not(w.is_marker(i)), z3.Not(w.is_marker(z3.Select(self.val, i)))))          # (types maps to classes)
            return it.lift(i)
        tf = it.new(host_class(it, 'TypeField', None, {'probe': probe}), 'type-field')
        it.set_attr_raw(tf, 'types', types)
        kw = {}
        self.reset, self.unmapped = False, 'ignore'
        if self.opts:
            self.reset, self.unmapped = Sym(z3.Const('reset', BOOL)), Sym(z3.Const('unmapped', STR))
            kw = {'reset': self.reset, 'unmapped': self.unmapped}
        member(it, 'pilo.fields', 'FormError').ns['message'] = getter(lambda it, o: 'some text')
        return it.instantiate(w.fields['PolymorphicSubForm'], [tf], kw)

    def specify(self, it, w, f, at):
        pass

    def outcome(self, it, w, f, at, value):
        v = P_VALUE(at)
        it.prove('the identity of the value is read', len(self.probed) == 1 and self.probed[0] == v)
        i = IDENT(v)
        if not it.branch(IDOK(v)):
            it.cover('unreadable')
            self.one_invalid(it, w, f, at, value)
            it.prove('no form is mapped', not self.F.maps)
        elif it.branch(i == V.none):
            it.cover('null')
            new = w.new_errors()
            missing = it.branch(w.ignore_missing)
            it.prove('a null identity is an absent value', new is not None and len(new) == (0 if missing else 1))
            if new and len(new) == 1:
                w.expect_error(new[0], 'Missing', f, at)
            it.prove('no value', w.no_value(value))
            it.prove('no form is mapped', not self.F.maps)
        elif not it.branch(z3.Select(self.dom, i)):
            it.cover('unknown')
            self.one_invalid(it, w, f, at, value)
            it.prove('no form is mapped', not self.F.maps)
        else:
            self.F.check(f, at, value, z3.Select(self.val, i), self.reset, self.unmapped)


class Sub(Container):
    """A plain sub form."""
    functions = Container.functions + (FIELDS + 'SubForm.__init__', FIELDS + 'SubForm._parse', FIELDS + 'SubForm.options')
    covers = ('mapped', 'faulty')

    def __init__(self, options):
        self.opts = options
        self.name = 'sub form' + ('-options' if options else '')

    def build(self, it, w):
        self.F = FormTypes(it, w, self.E)
        self.type = it.new(self.F.some, 'the-class')
        it.embedded.add(self.type.oid)
        made = self.F.cls

        def init(it, a, k):
            a[0].attrs['ghost_type'] = self.type
        made.ns['__init__'] = BuiltinFn('init', init)
        self.reset, self.unmapped = False, 'ignore'
        kw = {}
        if self.opts:
            self.reset, self.unmapped = Sym(z3.Const('reset', BOOL)), Sym(z3.Const('unmapped', STR))
            kw = {'reset': self.reset, 'unmapped': self.unmapped}
        return it.instantiate(w.fields['SubForm'], [made], kw)

    def specify(self, it, w, f, at):
        pass

    def outcome(self, it, w, f, at, value):
        self.F.check(f, at, value, it.to_V(self.type), self.reset, self.unmapped)


NAMED = z3.Const('type_field_name', STR)
STORED = fn('probe_stores', V, BOOL)
STORED_V = fn('probe_stored', V, V)
MAPERR = fn('probe_source_fails', V, BOOL)


class Probe(Harness):
    """The identity of a value is what a form of the type field (and those before it) stores under its name."""
    functions = ('pilo.Types.probe', FIELDS + 'Type.probe', FIELDS + 'Field.__get__')
    name = 'probe'
    covers = ('read', 'faulty', 'nothing stored', 'no source')

    def run(self, it):
        w = World(it)
        E = Elements(it, w)
        mapped = []
        v = z3.Const('value', V)
        at = w.p0
        faults = lambda t: FORM_FAULTS(t, at)          # noqa: E731
        member(it, 'pilo.fields', 'FormError').ns['message'] = getter(lambda it, o: 'some text')

        def map_(it, a, k):
            o = a[0]
            mapped.append(it.to_V(a[1]))
            t = it.to_V(a[1])
            if it.branch(MAPERR(t)):
                it.raise_exc('ValueError', 'not a source')
            it.write_data(o)
            d0 = it.dict_arrays(o)
            has = it.branch(STORED(t))
            if has:
                it.setitem(o, it.lift(V.str(NAMED)), it.lift(STORED_V(t)))
            out = it.instantiate(w.fields['CollectErrors'], [], {})
            it.write_data(out)
            out.data.chunks.append(('s', faults(t), E.fault_cls()))
            return out
        cls = client(it, SUBFORM)['TheSubForm']
        cls.ns['map'] = BuiltinFn('map', map_)
        tf = it.instantiate(w.fields['Type'], [], {})
        w.attach(tf)
        it.set_attr_raw(tf, 'name', Sym(NAMED))
        types = it.instantiate(member(it, 'pilo', 'Types'), [cls, tf], {})
        it.set_attr_raw(tf, 'types', types)
        it.write_data(types)
        types.data = DictData(dom=z3.Const('types', SETS), val=z3.Const('type_of', MAPS))
        it.assume(it.set_nonempty_term(types.data.dom))
        r = attempt(it, lambda: it.call(it.getattr(tf, 'probe'), [it.lift(v)]))
        w.restored()
        it.prove('the value is read once', len(mapped) == 1 and mapped[0] == v)
        it.prove('the enclosing form gets no errors', it.list_term(w.errors) == w.e0)
        if it.branch(MAPERR(v)):
            it.cover('no source')
            it.prove('a value that cannot be mapped is a value error', not r.ok and it.exc_matches(r.exc, it.B['ValueError']))
        elif it.branch(z3.Length(faults(v)) > 0):
            it.cover('faulty')
            it.prove('the first error is raised', not r.ok and it.to_V(r.exc) == faults(v)[0])
        elif it.branch(STORED(v)):
            it.cover('read')
            it.prove('the identity is what was stored', r.ok and it.to_V(r.value) == STORED_V(v))
        else:
            it.cover('nothing stored')
            it.prove('no identity is a value error', not r.ok and it.exc_matches(r.exc, it.B['ValueError']))


CHOICES = fn('choices', V, SEQ)
DECLARED = fn('declares_type', V, BOOL)
ABSTRACT = fn('abstract_type', V, BOOL)
SUBS = fn('subclasses', V, SEQ)
HASID = fn('tree_has', V, V, BOOL)
OWNER = fn('owner', V, V)


class Register(Harness):
    """Every class of the hierarchy (any number of classes, to any depth) is registered for its own identities.

    By induction over the hierarchy: the recursive call is taken by its contract, for one arbitrary identity.
    """
    functions = ('pilo.Types.map',)
    name = 'register'
    covers = ('registered',)

    def run(self, it):
        w = World(it)
        some = z3.Const('some_identity', V)
        depth = []
        # an unknown class of the hierarchy

        def type_of(it, o):
            c = it.to_V(o)
            if not it.branch(DECLARED(c)):
                it.raise_exc('AttributeError', 'no value')
            f = it.new(field_cls, 'type-field-of')
            it.set_attr_raw(f, 'choices', None if it.branch(ABSTRACT(c)) else it.new_list([('s', CHOICES(c), None)], 'choices'))
            return f
        field_cls = host_class(it, 'AType', None, {})
        ccls = host_class(it, 'AFormClass', None, {
            'the_type': getter(type_of),
            '__subclasses__': lambda it, a, k: it.new_list([('s', SUBS(it.to_V(a[0])), ccls)], 'subclasses')})
        root = it.new(ccls, 'root-class')
        it.embedded.add(root.oid)
        c0 = it.to_V(root)
        own = lambda c: z3.And(DECLARED(c), z3.Not(ABSTRACT(c)))          # noqa: E731
        tf = it.instantiate(w.fields['Field'], [], {})
        it.set_attr_raw(tf, 'parent', root)
        it.set_attr_raw(tf, 'name', 'the_type')
        made = []

        def for_field(it, f, args, kwargs):
            t = it.instantiate(args[0], [None, args[1]], {})
            made.append(t)
            return t
        it.contracts['pilo.Types.for_field'] = for_field

        def nested(it, f, args, kwargs):
            if len(args) != 1 or kwargs or getattr(args[0], 'cls', None) is not ccls:
                return NotImplemented
            # the contract: the identity is added when the class's own hierarchy has it, for the class that owns it
            c = it.to_V(args[0])
            it.write_data(made[0])
            d, v = it.dict_arrays(made[0])
            d2, v2 = it.fresh('reg.dom', SETS), it.fresh('reg.val', MAPS)
            it.assume(z3.Select(d2, some) == z3.Or(z3.Select(d, some), HASID(c, some)))
            it.assume(z3.If(HASID(c, some), z3.Select(v2, some) == OWNER(some), z3.Select(v2, some) == z3.Select(v, some)))
            made[0].data = DictData(dom=d2, val=v2)
        it.ghost['recursion'] = nested
        ch, subs = CHOICES(c0), SUBS(c0)
        mine = PrefixFn('own_identity', BOOL, z3.BoolVal(False), lambda k: z3.Or(mine.f(k), ch[k] == some))
        below = PrefixFn('inherited_identity', BOOL, z3.BoolVal(False), lambda k: z3.Or(below.f(k), HASID(subs[k], some)))
        it.prefix_fns += [mine, below]
        it.prefix_facts(z3.IntVal(0), None)
        mine_all = z3.And(own(c0), mine.f(z3.Length(ch)))
        it.assume(z3.Implies(mine_all, OWNER(some) == c0))

        def cands(it, loop):
            k = loop['k']
            out = {}
            for n, t in loop['cur'].items():
                if t.sort() == SETS:
                    v = loop['cur'].get(n.replace('.dom', '.val'))
                    d = z3.Select(t, some)
                    for nm, h in (('own', z3.And(own(c0), mine.f(k))), ('below', z3.Or(mine_all, below.f(k)))):
                        out['has-%s %s' % (nm, n)] = d == h
                        if v is not None:
                            out['val-%s %s' % (nm, n)] = z3.Implies(h, z3.Select(v, some) == (c0 if nm == 'own' else OWNER(some)))
            return out
        it.extra_cands = cands
        r = attempt(it, lambda: it.call(it.getattr(member(it, 'pilo', 'Types'), 'map'), [tf]))
        w.restored()
        it.prove('registering does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        it.prove('no errors are recorded', it.list_term(w.errors) == w.e0)
        if not r.ok or not made:
            return
        it.cover('registered')
        d, v = it.dict_arrays(r.value)
        has = z3.Or(mine_all, below.f(z3.Length(subs)))
        it.prove('an identity is registered exactly when some class has it', z3.Select(d, some) == has)
        it.prove('for the class that has it', z3.Implies(has, z3.Select(v, some) == OWNER(some)))


CLONE = fn('clone_of', V, V)
F_NAME = fn('name_of_field', V, STR)
F_SRC = fn('src_of_field', V, V)


class ProbeClass(Harness):
    """The form which reads the identity: of copies of exactly the fields up to the type field (any number), each under its name."""
    functions = ('pilo.Types.for_field',)
    name = 'probe form'

    def __init__(self, listed):
        self.listed = listed
        self.name = 'probe form' + ('' if listed else '-not listed')
        self.covers = ('made',) if listed else ('refused',)

    def run(self, it):
        w = World(it)
        FS, T = z3.Const('fields', SEQ), z3.Const('place_of_type', INT)
        n = z3.Length(FS)
        it.assume(z3.And(T >= 0, T < n) if self.listed else T == n)
        copied = []

        def clone(it, a, k):
            it.prove('a field is copied as it is', len(a) == 1 and not k)
            copied.append(a[0])
            return it.lift(CLONE(it.to_V(a[0])))
        fcls = host_class(it, 'AnyField', [w.fields['Field']], {
            'name': getter(lambda it, o: it.lift(F_NAME(it.to_V(o)))), 'clone': clone, 'parent': getter(lambda it, o: parent), 'src': getter(lambda it, o: it.lift(F_SRC(it.to_V(o)))),
            '__str__': lambda it, a, k: 'a field', '__repr__': lambda it, a, k: 'a field'})
        parent = host_class(it, 'TheParent', [member(it, 'pilo.fields', 'Form')], {})
        parent.ns['fields'] = it.new_list([('s', FS, fcls)], 'TheParent.fields')
        t = z3.Const('type_field', V)
        it.assume(V.is_ref(t))
        tf = it.lift(t, fcls)
        it.assume(z3.IndexOf(FS, z3.Unit(t), 0) == T if self.listed else z3.Not(z3.Contains(FS, z3.Unit(t))))
        x = z3.Const('some_name', STR)
        # (the fields of a form are distinct and so are their names: C18; looked at through one arbitrary name)
        here = PrefixFn('here', BOOL, z3.BoolVal(False), lambda k: z3.Or(here.f(k), F_NAME(FS[k]) == x), lambda k: [
            (FS[k] == t) == (k == T), V.is_ref(FS[k]),
            z3.Implies(z3.And(here.f(k), k < n), F_NAME(FS[k]) != x)])
        what = PrefixFn('what', V, V.none, lambda k: z3.If(F_NAME(FS[k]) == x, FS[k], what.f(k)))
        due = lambda got, k: z3.Or(got == CLONE(what.f(k)), got == what.f(k))          # noqa: E731
        it.prefix_fns += [here, what]
        it.prefix_facts(z3.IntVal(0), None)
        it.ghost['bounds'] = {'T': T}

        def cands(it, loop):
            k = loop['k']
            out = {'before': k <= T}
            for nm, a in loop['cur'].items():
                if a.sort() == SETS:
                    out['has ' + nm] = z3.Select(a, V.str(x)) == here.f(k)
                    v = loop['cur'].get(nm.replace('.dom', '.val'))
                    if v is not None:
                        out['val ' + nm] = z3.Implies(here.f(k), due(z3.Select(v, V.str(x)), k))
            return out
        it.extra_cands = cands
        made = []

        def new_class(it, meta, name, bases, d):
            c = host_class(it, 'Probe', [member(it, 'pilo.fields', 'Form')], {})
            made.append((c, list(bases), it.dict_arrays(d)))
            return c
        it.ghost['new_class'] = new_class
        it.contracts[FIELDS + 'FormMeta.__new__'] = lambda it, f, a, k: new_class(it, a[0], a[1], it.to_host_list(a[2]), a[3])
        r = attempt(it, lambda: it.call(it.getattr(member(it, 'pilo', 'Types'), 'for_field'), [tf]))
        w.restored()
        if not self.listed:
            it.cover('refused')
            it.prove('a field which its form does not have is a value error', not r.ok and it.exc_matches(r.exc, it.B['ValueError']))
            return
        it.cover('made')
        it.prove('it does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        it.prove('one form class is made', len(made) == 1)
        c, bases, (dom, val) = made[0]
        it.prove('it is a form', bases == [member(it, 'pilo.fields', 'Form')])
        it.prove('with exactly the fields up to the type field', z3.Select(dom, V.str(x)) == here.f(T + 1))
        it.prove('they or copies of them, under their names', z3.Implies(here.f(T + 1), due(z3.Select(val, V.str(x)), T + 1)))
        it.prove('it reads the identity', it.getattr(r.value, 'type_form') is c)
        it.prove('of the type field', same(it, it.getattr(r.value, 'type_field'), tf))


class Clone(Harness):
    """A copy of a field is as the field, not attached; the field itself is as it was."""
    functions = (FIELDS + 'Field.clone',)
    covers = ('done',)

    def __init__(self, cls):
        self.cls = cls
        self.name = 'clone-' + cls

    def run(self, it):
        w = World(it)
        cls = client(it, SUBFORM)['TheSubForm']
        f = it.instantiate(w.fields[self.cls], [], {})
        if it.choose(2):
            it.call(it.getattr(f, 'attach'), [cls, 'a'])
        for nm in ('_count', 'src', 'name', 'nullable', 'extra'):
            it.set_attr_raw(f, nm, it.lift(z3.Const('its_' + nm, V)))
        before = dict(f.attrs)
        r = attempt(it, lambda: it.call(it.getattr(f, 'clone'), []))
        it.cover('done')
        it.prove('it does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        g = r.value
        it.prove('the copy is another field of the same class', isinstance(g, Obj) and g is not f and g.cls is f.cls)
        it.prove('the field is as it was', f.attrs.keys() == before.keys() and all(f.attrs[k] is before[k] for k in before))
        it.prove('the copy is not attached', same(it, it.getattr(g, 'is_attached'), False))
        it.prove('and has everything else of it', g.attrs.keys() == before.keys() and all(
            same_value(it, g.attrs[k], before[k]) for k in before if k != 'parent'))


def same_value(it, a, b):
    if a is b:
        return True
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.cls is not b.cls:
            return False
        if a.cls.name == 'Hook':          # (a hook of the copy: with the same function)
            return all(same_value(it, a.attrs[k], b.attrs[k]) for k in ('func', 'target', 'func_spec'))
        if isinstance(a.data, ListData) and a.data.concrete and b.data.concrete:
            x, y = a.data.items(), b.data.items()
            return len(x) == len(y) and all(same_value(it, p, q) for p, q in zip(x, y))
        if isinstance(a.data, DictData) and a.data.items is not None and b.data.items is not None:
            x, y = a.data.items, b.data.items
            return x.keys() == y.keys() and all(same_value(it, x[k], y[k]) for k in x)
        return False
    s = same(it, a, b)
    return s is True or (not isinstance(s, bool) and it.entails(s))


class Cast(Harness):
    """Casting a value gives the class registered for its identity, whatever the registry holds."""
    functions = (FIELDS + 'Type.cast', FIELDS + 'Type.probe')
    covers = ('known', 'unknown', 'unreadable')

    def __init__(self, known):
        self.known = known
        self.name = 'cast' + ('' if known else '-first')

    def run(self, it):
        w = World(it)
        v = z3.Const('value', V)
        dom, val = z3.Const('types', SETS), z3.Const('type_of', MAPS)
        ccls = host_class(it, 'SomeFormClass', None, {})
        Types = member(it, 'pilo', 'Types')
        tf = it.instantiate(w.fields['Type'], [], {})
        w.attach(tf)
        types = it.instantiate(Types, [client(it, SUBFORM)['TheSubForm'], tf], {})
        it.write_data(types)
        types.data = DictData(dom=dom, val=val, vcls=ccls)
        if self.known:
            it.assume(it.set_nonempty_term(dom))
            it.set_attr_raw(tf, 'types', types)
        mapped = []

        def map_(it, f, a, k):
            mapped.append(a[-1])
            return types
        it.contracts['pilo.Types.map'] = map_

        def probe(it, f, a, k):
            it.prove('the identity of the value is read', it.to_V(a[1]) == v and len(a) == 2 and not k)
            if not it.branch(IDOK(v)):
                it.raise_exc('ValueError', 'no identity')
            return it.lift(IDENT(v))
        it.contracts['pilo.Types.probe'] = probe
        r = attempt(it, lambda: it.call(it.getattr(tf, 'cast'), [it.lift(v)]))
        w.restored()
        it.prove('no errors are recorded', it.list_term(w.errors) == w.e0)
        if not self.known:
            it.prove('the classes are looked for', bool(mapped) and all(m is tf for m in mapped))
        i = IDENT(v)
        if not it.branch(IDOK(v)):
            it.cover('unreadable')
            it.prove('no identity is a value error', not r.ok and it.exc_matches(r.exc, it.B['ValueError']))
        elif it.branch(z3.Select(dom, i)):
            it.cover('known')
            it.prove('the class registered for the identity', r.ok and it.to_V(r.value) == z3.Select(val, i))
        else:
            it.cover('unknown')
            it.prove('an identity of no class is a value error', not r.ok and it.exc_matches(r.exc, it.B['ValueError']))


BASE = """
import pilo

class Base(pilo.Form):
%s

class Derived(Base):
    more = pilo.fields.Integer()
    kind = pilo.fields.Type.instance('d')
"""


class ProbeForm(Harness):
    """The form which reads the identity has the base's fields up to the type field, under their names and keys (stated shapes)."""
    functions = ('pilo.Types.for_field', FIELDS + 'Field.clone', FIELDS + 'Field.attach', FIELDS + 'FormMeta.__new__')
    covers = ('made',)
    bounded = True

    def __init__(self, shape):
        self.shape = shape
        self.name = 'probe form-%s' % shape

    def run(self, it):
        w = World(it)
        fs = []
        for i, c in enumerate(self.shape):
            fs.append({'t': "    kind = pilo.fields.Type.abstract('the-kind')", 'T': "    kind = pilo.fields.Type.abstract()",
                       'f': "    f%d = pilo.fields.String(default=None)" % i, 's': "    s%d = pilo.fields.Integer('src%d')" % (i, i)}[c])
        ns = client(it, BASE % '\n'.join(fs))
        base = ns['Base']
        tf = it.getattr(base, 'kind')
        before = list(it.getattr(base, 'fields').data.chunks)
        types = it.call(it.getattr(member(it, 'pilo', 'Types'), 'for_field'), [tf])
        it.cover('made')
        form = it.getattr(types, 'type_form')
        due = self.shape[:[i for i, c in enumerate(self.shape) if c in 'tT'][0] + 1]
        want = [(('kind', 'the-kind' if c == 't' else 'kind') if c in 'tT' else ('f%d' % i, 'f%d' % i) if c == 'f' else ('s%d' % i, 'src%d' % i))
                for i, c in enumerate(due)]
        got = [c[1] for c in it.getattr(form, 'fields').data.chunks]
        it.prove('the fields up to the type field, in order', [(it.getattr(f, 'name'), it.getattr(f, 'src')) for f in got] == want)
        it.prove('of the same kinds', [f.cls for f in got] == [it.getattr(base, n).cls for n, _ in want])
        it.prove('they or copies of them attached to the probing form', all(f is it.getattr(base, n) or it.getattr(f, 'parent') is form
                                                                           for f, (n, _) in zip(got, want)))
        it.prove('the base is as it was', it.getattr(base, 'fields').data.chunks == before and all(
            it.getattr(c[1], 'parent') is base for c in before))


class Identities(Harness):
    """The identities a class is registered for are those its type field was declared with; the others are abstract."""
    covers = ('done',)

    def __init__(self, way):
        self.way = way
        self.name = 'identities-' + way
        self.functions = (FIELDS + 'Type.' + way.split('-')[0], FIELDS + 'Type.__init__', FIELDS + 'Type.value')

    def run(self, it):
        w = World(it)
        cls = w.fields['Type']
        ids = {'instance-one': ['a'], 'instance-many': ['a', 'b'], 'constant': ['a'], 'abstract': []}[self.way]
        vs = [z3.Const('identity_' + x, V) for x in ids]
        for v in vs:
            it.assume(z3.And(V.is_str(v)))
        f = it.call(it.getattr(cls, self.way.split('-')[0]), [it.lift(v) for v in vs])
        it.cover('done')
        it.prove('it is a type field', isinstance(f, Obj) and f.cls is cls)
        w.attach(f)
        ch = it.getattr(f, 'choices')
        if not ids:
            it.prove('without identities', not it.branch(it.truth(ch)))
        else:
            it.prove('with exactly the given identities', it.list_term(ch) == (z3.Concat(*[z3.Unit(v) for v in vs]) if len(vs) > 1 else z3.Unit(vs[0])))
        if len(ids) == 1:
            r = attempt(it, lambda: it.getattr(f, 'value'))
            it.prove('whose value is its only identity', r.ok and it.to_V(r.value) == vs[0])
        if self.way == 'constant':
            r = attempt(it, lambda: it.call(it.getattr(f, 'map'), []))
            it.prove('a constant identity is read whatever the value', r.ok and it.to_V(r.value) == vs[0])
            it.prove('without errors', it.list_term(w.errors) == w.e0)


HARNESSES = [Identities(x) for x in ('instance-one', 'instance-many', 'constant', 'abstract')] + [Polymorphic(False), Polymorphic(True), Sub(False), Sub(True), Probe(), Cast(True), Cast(False), Register(), ProbeClass(True), ProbeClass(False),
             Clone('Field'), Clone('String'), Clone('Integer'), Clone('Type')]
FALLBACK = [ProbeForm(s) for s in ('t', 'T', 'tf', 'ft', 'sTf', 'fst', 'fsTsf')]
