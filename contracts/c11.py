"""C11: containers map element by element at the right paths."""
from .elements import *          # noqa: F401,F403
from .opening import OPENING

ASSUMPTIONS = ['the keys of a mapping are texts, or integers', 'mapped dict keys are hashable, equal exactly when they are the same value']
UNIT = lambda t: z3.Unit(t)          # noqa: E731


class Container(Harness):
    functions = (FIELDS + 'Field._map', FIELDS + 'Field.map', FIELDS + 'Field._compute')
    deadline = 240

    def run(self, it):
        w = World(it)
        self.prepare(it, w)
        f = self.build(it, w)
        w.attach(f)
        key = z3.Const('src', STR)
        it.set_attr_raw(f, 'src', Sym(key))
        at = self.place(w, key)
        it.assume(z3.And(P_EXISTS(at), z3.Not(P_NULL(at))))
        self.specify(it, w, f, at)
        r = attempt(it, lambda: it.call(it.getattr(f, 'map'), []))
        it.prove('mapping does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        w.restored()
        self.outcome(it, w, f, at, r.value)

    def place(self, w, key):
        return z3.Concat(w.p0, z3.Unit(V.str(key)))

    def prepare(self, it, w):
        self.E = Elements(it, w)

    def errors(self, it, w):
        return it.list_term(w.errors)

    def exactly(self, it, w, faults):
        it.prove('exactly the elements\' errors are recorded, in order', self.errors(it, w) == z3.Concat(w.e0, faults))

    def one_invalid(self, it, w, f, at, value):
        new = w.new_errors()
        it.prove('exactly one error', new is not None and len(new) == 1)
        if new and len(new) == 1:
            w.expect_error(new[0], 'Invalid', f, at)
        it.prove('no value', w.no_value(value))


class ListOf(Container):
    functions = Container.functions + (FIELDS + 'List.__init__', FIELDS + 'List._parse')

    def __init__(self, bare):
        self.bare = bare
        self.name = 'list' + ('-bare' if bare else '')
        self.covers = ('sequence', 'other')

    def build(self, it, w):
        self.e = self.E.new('element')
        return it.instantiate(w.fields['List'], [self.e], {'allow_field': True} if self.bare else {})

    def specify(self, it, w, f, at):
        v = lambda k: self.E.value(self.e, z3.Concat(at, z3.Unit(V.int(k))))          # noqa: E731
        e = lambda k: self.E.faults(self.e, z3.Concat(at, z3.Unit(V.int(k))))          # noqa: E731
        empty = z3.Empty(SEQ)
        self.kept = PrefixFn('kept', SEQ, empty, lambda k: z3.If(w.is_marker(v(k)), self.kept.f(k), z3.Concat(self.kept.f(k), z3.Unit(v(k)))))
        self.faults = PrefixFn('all_faults', SEQ, empty, lambda k: z3.Concat(self.faults.f(k), e(k)))
        it.prefix_fns += [self.kept, self.faults]

    def outcome(self, it, w, f, at, value):
        if it.branch(P_SEQOK(at)):
            it.cover('sequence')
            n = P_SEQLEN(at)
            ok = isinstance(value, Obj) and isinstance(value.data, ListData) and value.cls is it.B['list']
            it.prove('the result is a list', ok)
            if ok:
                it.prove('of exactly the mapped elements, in order', it.list_term(value) == self.kept.f(n))
            self.exactly(it, w, self.faults.f(n))
            return
        it.cover('other')
        if not self.bare:
            self.one_invalid(it, w, f, at, value)
            return
        v = self.E.value(self.e, at)
        if it.branch(v == w.none):
            # the list itself is absent then (C06), after its element's errors
            ch = w.errors.data.chunks
            it.prove('its own errors come after the element\'s', len(ch) >= 2 and it.list_term(it.new_list(ch[:2])) == z3.Concat(
                w.e0, self.E.faults(self.e, at)))
            missing = it.branch(w.ignore_missing)
            it.prove('an absent list is reported at most once', len(ch) == (2 if missing else 3))
            it.prove('no value', w.no_value(value))
            return
        self.exactly(it, w, self.E.faults(self.e, at))
        if it.branch(w.is_marker(v)):
            it.prove('no value', w.no_value(value))
            return
        ok = isinstance(value, Obj) and isinstance(value.data, ListData) and value.cls is it.B['list']
        it.prove('the result is a list', ok)
        if ok:
            it.prove('of the one bare value', it.list_term(value) == z3.Unit(v))


class TupleOf(Container):
    functions = Container.functions + (FIELDS + 'Tuple.__init__', FIELDS + 'Tuple._parse')
    covers = ('fits', 'wrong length', 'other')

    def __init__(self, n):
        self.n = n
        self.name = 'tuple-%s' % n

    def build(self, it, w):
        if self.n == 'many':
            self.all = z3.Const('fields', SEQ)
            it.assume(z3.Length(self.all) >= 1)
            self.count = z3.Length(self.all)
            self.at_ = lambda k: self.all[k]
            return it.instantiate(w.fields['Tuple'], [it.new_list([('s', self.all, self.E.cls)], 'fields')], {})
        es = [self.E.new('e%d' % i) for i in range(self.n)]
        self.count = z3.IntVal(self.n)

        def at_(k):
            t = it.to_V(es[0])
            for i, e in enumerate(es):
                t = z3.If(k == i, it.to_V(e), t)
            return t
        self.at_ = at_
        return it.instantiate(w.fields['Tuple'], es if self.n > 1 else [it.list_of(es)], {})

    def specify(self, it, w, f, at):
        v = lambda k: MAPPED(self.at_(k), z3.Concat(at, z3.Unit(V.int(k))), w.none)          # noqa: E731
        e = lambda k: FAULTS(self.at_(k), z3.Concat(at, z3.Unit(V.int(k))), w.none)          # noqa: E731
        empty = z3.Empty(SEQ)
        self.kept = PrefixFn('kept', SEQ, empty, lambda k: z3.If(w.is_marker(v(k)), self.kept.f(k), z3.Concat(self.kept.f(k), z3.Unit(v(k)))))
        self.faults = PrefixFn('all_faults', SEQ, empty, lambda k: z3.Concat(self.faults.f(k), e(k)))
        it.prefix_fns += [self.kept, self.faults]
        if self.n != 'many':
            for k in range(self.n + 1):
                it.prefix_facts(z3.IntVal(k), None)

    def outcome(self, it, w, f, at, value):
        if not it.branch(P_SEQOK(at)):
            it.cover('other')
            self.one_invalid(it, w, f, at, value)
            return
        if not it.branch(P_SEQLEN(at) == self.count):
            it.cover('wrong length')
            self.one_invalid(it, w, f, at, value)
            return
        it.cover('fits')
        if isinstance(value, tuple):
            items = z3.Empty(SEQ)
            for x in value:
                items = z3.Concat(items, z3.Unit(it.to_V(x)))
        else:
            ok = isinstance(value, Obj) and isinstance(value.data, ListData) and value.cls is it.B['tuple']
            it.prove('the result is a tuple', ok)
            if not ok:
                return
            items = it.list_term(value)
        it.prove('of exactly the mapped elements, in order', items == self.kept.f(self.count))
        self.exactly(it, w, self.faults.f(self.count))


class DictOf(Container):
    functions = Container.functions + (FIELDS + 'Dict.__init__', FIELDS + 'Dict._parse', FIELDS + 'Dict._key_filter', FIELDS + 'Hook.__call__')
    covers = ('mapping', 'other')

    def __init__(self, kind, hook):
        self.kind, self.hook = kind, hook
        self.name = 'dict-%s-keys%s' % (kind, '-filtered' if hook else '')

    def prepare(self, it, w):
        self.E = Elements(it, w)
        self.K = Elements(it, w)
        it.ghost['key_cls'] = it.B[self.kind]

    def build(self, it, w):
        self.k, self.v = self.K.new('key'), self.E.new('value')
        f = it.instantiate(w.fields['Dict'], [self.k, self.v], {})
        if self.hook:
            keep = fn('keep_key', V, BOOL)
            self.keep = lambda k: keep(k)
            w.on_hook_ = w.on_hook

            def on_hook(name, a):
                if name == 'key_filter':
                    self.filtered_with_form = a[0] is w.form
                    it.prove('the key filter is called with the form', a[0] is w.form)
                    return it.lift(keep(it.to_V(a[1])))
                return w.on_hook_(name, a)
            w.on_hook = on_hook
            it.call(it.getattr(f, 'key_filter'), [w.ns['key_filter']])
        else:
            self.keep = lambda k: z3.BoolVal(True)
        return f

    def specify(self, it, w, f, at):
        ks = P_KEYS(at)
        key = lambda k: ks[k]          # noqa: E731
        inner = lambda k: z3.Concat(at, z3.Unit(key(k)))          # noqa: E731
        val = lambda k: self.E.value(self.v, inner(k))          # noqa: E731
        mk = lambda k: self.K.value(self.k, at, key(k))          # noqa: E731
        kept = lambda k: z3.And(self.keep(key(k)), z3.Not(w.is_marker(val(k))), z3.Not(w.is_marker(mk(k))))          # noqa: E731
        self.dom = PrefixFn('dom', SETS, z3.K(V, z3.BoolVal(False)), lambda k: z3.If(kept(k), z3.Store(self.dom.f(k), mk(k), True), self.dom.f(k)))
        self.val = PrefixFn('vals', MAPS, z3.Const('vals0', MAPS), lambda k: z3.If(kept(k), z3.Store(self.val.f(k), mk(k), val(k)), self.val.f(k)))
        empty = z3.Empty(SEQ)
        self.faults = PrefixFn('all_faults', SEQ, empty, lambda k: z3.If(
            z3.Not(self.keep(key(k))), self.faults.f(k), z3.If(
                w.is_marker(val(k)), z3.Concat(self.faults.f(k), self.E.faults(self.v, inner(k))),
                z3.Concat(self.faults.f(k), self.E.faults(self.v, inner(k)), self.K.faults(self.k, at, key(k))))))
        it.prefix_fns += [self.dom, self.val, self.faults]

        # equal on the keys there are
        x = z3.Const('x', V)

        def cands(it, loop):
            out = {}
            for n, t in loop['cur'].items():
                if t.sort() == MAPS:
                    d = loop['cur'].get(n.replace('.val', '.dom'))
                    if d is not None:
                        out['vals ' + n] = z3.Select(t, self.some) == z3.Select(self.val.f(loop['k']), self.some)
                        out['vals0 ' + n] = z3.Implies(z3.Select(d, self.some), z3.Select(t, self.some) == z3.Select(
                            self.val.f(loop['k']), self.some))
            return out
        self.some = z3.Const('some_key', V)
        it.extra_cands = cands

    def outcome(self, it, w, f, at, value):
        if not it.branch(P_MAPOK(at)):
            it.cover('other')
            self.one_invalid(it, w, f, at, value)
            return
        it.cover('mapping')
        n = z3.Length(P_KEYS(at))
        ok = isinstance(value, Obj) and isinstance(value.data, DictData)
        it.prove('the result is a dict', ok)
        if ok:
            dom, val = it.dict_arrays(value)
            it.prove('of exactly the mapped keys', dom == self.dom.f(n))
            it.prove('each with its mapped value, the last one winning', z3.Implies(
                z3.Select(dom, self.some), z3.Select(val, self.some) == z3.Select(self.val.f(n), self.some)))
        self.exactly(it, w, self.faults.f(n))


HARNESSES = [ListOf(False), ListOf(True), TupleOf(1), TupleOf(2), TupleOf(3), TupleOf('many'),
             DictOf('str', False), DictOf('str', True), DictOf('int', False), DictOf('int', True)] + OPENING
