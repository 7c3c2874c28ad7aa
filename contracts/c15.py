"""C15: form transformations leave the original unchanged."""
from .forms import *          # noqa: F401,F403
from pyvc.values import LISTREF

ASSUMPTIONS = ['munging a nested form is under the contract being proved (induction over the nesting)', 'the munge function does not change the form',
               'tags are equal exactly when they are the same value']
ANSWER = fn('answer', V, V, V)
MUNGED = fn('munged', V, V)


def is_form(it, t):
    return it.isinst_term(t, member(it, 'pilo.fields', 'Form'))


def is_list(it, t):
    return z3.Or(it.isinst_term(t, it.B['list']), it.isinst_term(t, it.B['tuple']))


class Transform(FormMap):
    """Munging and filtering: any number of fields, any stored values; what is answered for a field is any value or a form."""
    functions = (FIELDS + 'Form.munge', FIELDS + 'Form.filter', FIELDS + 'Field.has_tag')
    covers = ('done',)

    def __init__(self, op, tags=0, inv=None):
        self.op, self.tags, self.inv = op, tags, inv
        self.name = op + ('' if op == 'munge' else '-%d%s' % (tags, {None: '', True: '-inv', False: '-not inv'}[inv]))

    def run(self, it):
        w = self.setup(it)
        self.E.form = None
        fs, form = self.fields, self.form
        it.embedded.add(form.oid)
        nm = lambda k: V.str(NAME(fs[k]))          # noqa: E731
        given = lambda k: z3.If(z3.Select(self.dom0, nm(k)), z3.Select(self.val0, nm(k)), w.none)          # noqa: E731
        funcs = []
        if self.op == 'munge':
            def func(it, a, k):
                new, field, v = a
                it.prove('the function is given the new form', isinstance(new, Obj) and new.cls is self.cls and new is not form)
                it.prove('the new form\'s items so far are the answers so far', True)
                out = ANSWER(it.to_V(field), it.to_V(v))
                it.assume(z3.Not(is_list(it, out)))
                return it.lift(out)
            f = BuiltinFn('func', func)
            funcs.append(f)
            due = lambda k: ANSWER(fs[k], given(k))          # noqa: E731
            args, kw = [f], {}
        else:
            ts = [z3.Const('tag%d' % i, V) for i in range(self.tags)]
            hit = lambda k: z3.Or([z3.BoolVal(False)] + [z3.Select(TAGS(fs[k]), t) for t in ts])          # noqa: E731
            keep = (lambda k: z3.Not(hit(k))) if self.inv else hit
            due = lambda k: z3.If(keep(k), given(k), w.none)          # noqa: E731
            args, kw = [it.lift(t) for t in ts], {} if self.inv is None else {'inv': self.inv}

        def attr(it, o, name):
            if name != 'munge':
                return MISSING
            t = it.to_V(o)

            def nested(it, a, k):
                it.prove('a nested form is munged by the same function', len(a) == 1 and (not funcs or a[0] in funcs))
                return it.lift(MUNGED(t))
            return BuiltinFn('munge', nested)
        it.ghost['getattr_opaque'] = attr
        final = lambda k: z3.If(is_form(it, due(k)), MUNGED(due(k)), due(k))          # noqa: E731
        kept = lambda k: due(k) != w.none          # noqa: E731
        self.some = z3.Const('some_key', V)

        def facts(k):
            # (stored values are no containers of forms here; those are in `Lists`)
            return [z3.Not(is_list(it, given(k)))]
        self.dom = PrefixFn('dom', SETS, z3.K(V, z3.BoolVal(False)), lambda k: z3.If(kept(k), z3.Store(self.dom.f(k), nm(k), True), self.dom.f(k)), facts)
        self.val = PrefixFn('vals', MAPS, z3.Const('vals0', MAPS), lambda k: z3.If(kept(k), z3.Store(self.val.f(k), nm(k), final(k)), self.val.f(k)))
        it.prefix_fns += [self.dom, self.val]
        it.prefix_facts(z3.IntVal(0), None)

        def cands(it, loop):
            out = {'none': z3.Not(z3.Select(self.dom.f(loop['k']), self.some))}
            for n, t in loop['cur'].items():
                if t.sort() == MAPS:
                    d = loop['cur'].get(n.replace('.val', '.dom'))
                    if d is not None:
                        out['vals ' + n] = z3.Implies(z3.Select(d, self.some), z3.Select(t, self.some) == z3.Select(
                            self.val.f(loop['k']), self.some))
            return out
        it.extra_cands = cands
        r = attempt(it, lambda: it.call(it.getattr(form, self.op), args, kw))
        w.restored()
        it.cover('done')
        it.prove('it does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        self.unchanged(it, w)
        self.result(it, r.value, self.dom.f(self.n), self.val.f(self.n))

    def unchanged(self, it, w):
        d, v = it.dict_arrays(self.form)
        it.prove('the form has its keys still', d == self.dom0)
        it.prove('and its values', v == self.val0)
        it.prove('nothing is recorded', it.list_term(w.errors) == w.e0)

    def result(self, it, got, dom, val):
        ok = isinstance(got, Obj) and got.cls is self.cls and got is not self.form
        it.prove('the result is another form of the same class', ok)
        if not ok:
            return
        d, v = it.dict_arrays(got)
        it.prove('with exactly the due keys', z3.Select(d, self.some) == z3.Select(dom, self.some))
        it.prove('each with its due value', z3.Implies(z3.Select(d, self.some), z3.Select(v, self.some) == z3.Select(val, self.some)))


class Copy(Transform):
    functions = (FIELDS + 'Form.copy',)
    covers = ('done',)

    def __init__(self):
        self.name = 'copy'

    def run(self, it):
        w = self.setup(it)
        self.some = z3.Const('some_key', V)
        # its keys, each once, in the form's order
        ks = self.form.data.keyseq = z3.Const('keys', SEQ)
        seen = PrefixFn('seen', BOOL, z3.BoolVal(False), lambda k: z3.Or(seen.f(k), ks[k] == self.some))
        it.prefix_fns.append(seen)
        it.prefix_facts(z3.IntVal(0), None)
        it.assume(seen.f(z3.Length(ks)) == z3.Select(self.dom0, self.some))

        def cands(it, loop):
            out = {}
            for n, t in loop['cur'].items():
                if t.sort() == SETS:
                    out['has ' + n] = z3.Select(t, self.some) == seen.f(loop['k'])
                    v = loop['cur'].get(n.replace('.dom', '.val'))
                    if v is not None:
                        out['val ' + n] = z3.Implies(seen.f(loop['k']), z3.Select(v, self.some) == z3.Select(self.val0, self.some))
            return out
        it.extra_cands = cands
        r = attempt(it, lambda: it.call(it.getattr(self.form, 'copy'), []))
        w.restored()
        it.cover('done')
        it.prove('it does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        self.unchanged(it, w)
        self.result(it, r.value, self.dom0, self.val0)


class Lists(Transform):
    """A field answered with a list (any number of items, forms or not)."""
    covers = ('done',)

    def __init__(self, kind):
        self.kind = kind
        self.name = 'munge-' + kind

    def run(self, it):
        w = World(it)
        E = Elements(it, w)
        cls = self.cls = client(it, FORM)['TheForm']
        f = E.new('the-field')
        it.call(it.getattr(f, 'attach'), [cls, 'a'])
        cls.ns['a'] = f
        cls.ns['fields'] = it.list_of([f])
        form = self.form = it.instantiate(cls, [], {})
        items = z3.Const('items', SEQ)
        NForm = host_class(it, 'NestedForm', [member(it, 'pilo.fields', 'Form')], {})
        n = z3.Length(items)
        lst = it.new_list([('s', items, None)], 'the-list')
        if self.kind == 'tuple':
            raise Unsupported('tuple')
        it.setitem(form, 'a', lst)

        def attr(it, o, name):
            t = it.to_V(o)

            def nested(it, a, k):
                it.prove('a nested form is munged by the same function', len(a) == 1 and a[0] is func)
                return it.lift(MUNGED(t))
            return BuiltinFn('munge', nested) if name == 'munge' else MISSING
        it.ghost['getattr_opaque'] = attr
        func = BuiltinFn('func', lambda it, a, k: a[2])
        one = lambda k: z3.If(is_form(it, items[k]), MUNGED(items[k]), items[k])          # noqa: E731
        done = PrefixFn('munged_items', SEQ, z3.Empty(SEQ), lambda k: z3.Concat(done.f(k), z3.Unit(one(k))))
        it.prefix_fns += [done]
        it.prefix_facts(z3.IntVal(0), None)
        r = attempt(it, lambda: it.call(it.getattr(form, 'munge'), [func]))
        it.cover('done')
        it.prove('it does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        it.prove('the form holds its list still', it.getitem(form, 'a') is lst)
        it.prove('with the items it had', it.list_term(lst) == items)
        got = it.getitem(r.value, 'a')
        ok = isinstance(got, Obj) and isinstance(got.data, ListData) and got is not lst
        it.prove('the result has another list', ok)
        if ok:
            it.prove('of each item, forms munged', it.list_term(got) == done.f(n))


FLAT = fn('flattened_below', SEQ, V, SEQ)         # contract of flattening what is stored under the given fields


class FlattenAny(FormMap):
    """Flattening a form of any number of fields, any of them stored, holding plain values or forms; what is nested by induction."""
    functions = (FIELDS + 'Form.flatten',)
    name = 'flatten'
    covers = ('done',)

    def run(self, it):
        w = self.setup(it)
        it.ghost['value_lists'] = True
        fs, form, n = self.fields, self.form, self.n
        it.embedded.add(form.oid)
        nm = lambda k: V.str(NAME(fs[k]))          # noqa: E731
        has = lambda k: z3.Select(self.dom0, nm(k))          # noqa: E731
        val = lambda k: z3.Select(self.val0, nm(k))          # noqa: E731
        above = z3.Const('fields_above', SEQ)          # (the induction is over any fields above; there are none in the end)
        started = []

        def the_path(f, args):
            vs = list(args[1:]) + (list(f.scope.vars.values()) if f.scope is not None else [])
            paths = [o for o in vs if isinstance(o, Obj) and isinstance(o.data, ListData)]
            return paths[0] if len(paths) == 1 and args else None

        def inline(f, args, kwargs):
            p = the_path(f, args) if isinstance(f, FuncVal) and not started else None
            if p is not None and args[0] is form:
                started.append(p)
                it.prove('there are no fields above a form that is flattened', it.list_term(p) == z3.Empty(SEQ))
                it.write_data(p)
                p.data = ListData([('s', above, None)])
            return type(it).inline(it, f, args, kwargs)
        it.inline = inline

        def nested(it, f, args, kwargs):
            paths = [the_path(f, args)]
            if kwargs or paths[0] is None or not started:
                return NotImplemented
            t = it.to_V(args[0])
            it.cover('nested')
            it.prove('what is flattened below is a form', is_form(it, t))
            return it.iterate(it.new_list([('s', FLAT(it.list_term(paths[0]), t), None)], 'below'))
        it.ghost['recursion'] = nested

        def entry(at, v):
            me = LISTREF(at)
            return z3.Unit(V.pair(V.ref(me), v))
        out = PrefixFn('flattened', SEQ, z3.Empty(SEQ), lambda k: z3.If(
            z3.Or(z3.Not(has(k)), w.is_marker(val(k))), out.f(k),
            z3.If(is_form(it, val(k)), z3.Concat(out.f(k), FLAT(z3.Concat(above, z3.Unit(fs[k])), val(k))),
                  z3.Concat(out.f(k), entry(z3.Concat(above, z3.Unit(fs[k])), val(k))))))
        it.prefix_fns.append(out)
        it.prefix_facts(z3.IntVal(0), None)
        r = attempt(it, lambda: it.call(it.getattr(form, 'flatten'), []))
        w.restored()
        it.cover('done')
        it.prove('it does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        d, v = it.dict_arrays(form)
        it.prove('the form has its keys still', d == self.dom0)
        it.prove('and its values', v == self.val0)
        it.prove('nothing is recorded', it.list_term(w.errors) == w.e0)
        got = it.new_list()
        it.list_extend(got, r.value)
        it.prove('the fields above are known', len(started) == 1)
        if not started:
            return
        it.prove('the fields above are as they were', it.list_term(started[0]) == above)
        it.prove('each stored non-form value once, with the fields leading to it, in declared order', it.list_term(got) == out.f(n))


class Flatten(Harness):
    """Flattening a form of a stated shape, any of its values stored or not."""
    functions = (FIELDS + 'Form.flatten',)
    covers = ('done',)
    bounded = True
    deadline = 200

    def __init__(self, shape):
        self.shape = shape          # per field: '.' a plain value, or the shape of a nested form
        self.name = 'flatten-%s' % (shape,)

    def make(self, it, E, shape, path, out, objs):
        cls = self.classes.get(str(shape))
        if cls is None:
            cls = self.classes[str(shape)] = client(it, FORM)['TheForm']
            fs = []
            for i, c in enumerate(shape):
                f = E.new('f%d-%s' % (i, shape))
                it.call(it.getattr(f, 'attach'), [cls, 'n%d' % i])
                cls.ns['n%d' % i] = f
                fs.append(f)
            cls.ns['fields'] = it.list_of(fs)
        form = it.instantiate(cls, [], {})
        objs.append(form)
        fs = [c[1] for c in cls.ns['fields'].data.chunks]
        for i, c in enumerate(shape):
            if not it.choose(2):
                continue          # not stored
            if c == '.':
                self.count += 1
                v = z3.Const('value%d' % self.count, V)
                it.assume(z3.And(z3.Not(self.w.is_marker(v)), z3.Not(is_form(it, v))))
                it.setitem(form, 'n%d' % i, it.lift(v))
                out.append((path + [fs[i]], v))
            else:
                it.setitem(form, 'n%d' % i, self.make(it, E, c, path + [fs[i]], out, objs))
        return form

    def run(self, it):
        w = self.w = World(it)
        E = Elements(it, w)
        self.classes, self.count = {}, 0
        want, objs = [], []
        form = self.make(it, E, self.shape, [], want, objs)
        before = [dict(o.data.items) for o in objs]
        ns = client(it, """
def take(form):
    out = []
    for path, value in form.flatten():
        out.append((path, value))
    return out
""")
        r = attempt(it, lambda: it.call(ns['take'], [form]))
        it.cover('done')
        it.prove('it does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        it.prove('no form is changed', all(o.data.items.keys() == b.keys() and all(o.data.items[k] is b[k] for k in b) for o, b in zip(objs, before)))
        got = [c[1] for c in r.value.data.chunks]
        it.prove('each stored non-form value once', len(got) == len(want))
        for g, (path, v) in zip(got, want):
            it.prove('in declared order', it.to_V(g[1]) == v)
            p = g[0]
            p = list(p) if isinstance(p, tuple) else [c[1] for c in p.data.chunks]
            it.prove('with the fields leading to it', len(p) == len(path) and all(x is y for x, y in zip(p, path)))


HARNESSES = [Transform('munge')] + [Transform('filter', t, i) for t in (0, 1, 2) for i in (None, True, False)] + [Copy(), Lists('list'), FlattenAny()]
FALLBACK = [Flatten(s) for s in ([], ['.'], ['.', '.', '.'], [['.']], ['.', ['.', '.'], '.'], [['.', ['.']], ['.']], [[[]], '.'])]
