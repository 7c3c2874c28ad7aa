"""The mapping pipeline of a field: what the statements of C06 and C07 say must happen, beside what the code does."""
from .fieldlib import *          # noqa: F401,F403

NOTHING = 'nothing'


class Outline(object):
    """What the statement says must happen (computed beside the code, from the same unknowns)."""

    def __init__(self):
        self.calls = []          # hooks, in order
        self.errors = []         # (class, keys)
        self.value = None        # z3 V term, or NOTHING
        self.marker = None       # a particular marker that is due
        self.raised = None


def callable_object(it, call):
    """An object which is neither a function nor a class, but can be called (a partial function, say)."""
    return it.new(host_class(it, 'CallableObject', None, {'__call__': call}))


class Pipeline(Harness):
    functions = (FIELDS + 'Field._map', FIELDS + 'Field.map', FIELDS + 'Field._compute', FIELDS + 'Field._resolve',
                 FIELDS + 'Field._munge', FIELDS + 'Field._filter', FIELDS + 'Field._validate', FIELDS + 'Field._default',
                 FIELDS + 'Hook.__call__', FIELDS + 'Errors.missing', FIELDS + 'Errors.invalid', 'pilo.context.Context.push',
                 'pilo.context.Context.restore')
    covers = ('mapped',)
    deadline = 200

    def __init__(self, what, default, start, mid, cls='Field'):
        #: start: how the value comes to be; mid: the hooks after it
        self.what, self.default, self.start, self.mid, self.cls = what, default, start, mid, cls
        if what == 'options':
            self.functions = self.functions + tuple(FIELDS + 'Field.' + n for n in ('__init__', 'options', 'ignore', 'translate'))
        self.name = '%s-%s-%s-%s%s' % (what, default, start, '+'.join(mid) or 'plain', '' if cls == 'Field' else '-' + cls)

    # ---------------------------------------------------------------- the field
    def make(self, it, w):
        self.key = z3.Const('src', STR)
        if self.what == 'options':
            return self.make_by_options(it, w)
        f = it.instantiate(w.fields[self.cls], [], {})
        w.attach(f)
        it.set_attr_raw(f, 'src', Sym(self.key))
        self.nullable = [w.NONE, True, False][it.choose(3)]
        it.set_attr_raw(f, 'nullable', self.nullable)
        hooks = []
        if self.start in ('compute', 'parse', 'resolve'):
            hooks.append(self.start)
        hooks += [m for m in self.mid if m in HOOKS]
        if self.default == 'hook':
            hooks.append('default')
        w.register(f, *hooks)
        if 'translate' in self.mid:
            d = it.new_dict(label='translations')
            d.data = DictData(dom=z3.Const('tr_dom', SETS), val=z3.Const('tr_val', MAPS))
            it.set_attr_raw(f, 'translations', d)
            self.translations = d
        if 'ignore' in self.mid:
            self.ignores = it.new_list([('s', z3.Const('ignored', SEQ), None)], 'ignores')
            it.set_attr_raw(f, 'ignores', self.ignores)
        made = []

        def default_call(it, a, k):
            made.append(1)
            return it.lift(z3.Const('made' if len(made) == 1 else 'made again', V))
        self.made = made
        if self.default == 'const':
            dv = z3.Const('default_value', V)
            d = it.lift(dv)
            it.assume(z3.Not(z3.Or(w.is_marker(dv), z3.And(V.is_ref(dv), CALLABLE(dv)), isa(it, d, it.B['type']),
                                   isa(it, d, w.fields['Hook']))))
            it.set_attr_raw(f, 'default', it.lift(dv))
        elif self.default == 'none':
            it.set_attr_raw(f, 'default', None)
        elif self.default == 'optional':
            it.set_attr_raw(f, 'default', w.NONE)
        elif self.default == 'callable':
            it.set_attr_raw(f, 'default', BuiltinFn('make_default', default_call))
        elif self.default == 'object':
            it.set_attr_raw(f, 'default', callable_object(it, default_call))
        elif self.default == 'class':
            c = host_class(it, 'DefaultClass', None, {'__new__': StaticM(BuiltinFn('new', default_call))})
            it.set_attr_raw(f, 'default', c)
        return f

    def make_by_options(self, it, w):
        """A field made as clients make it: by the options of its constructor or of `options`."""
        kw = {}
        self.nullable = [w.NONE, True, False][it.choose(2 if self.default == 'none' else 3)]
        if self.nullable is not w.NONE:
            kw['nullable'] = self.nullable
        self.made = made = []

        def default_call(it, a, k):
            made.append(1)
            return it.lift(z3.Const('made' if len(made) == 1 else 'made again', V))
        if self.default == 'const':
            dv = z3.Const('default_value', V)
            d = it.lift(dv)
            it.assume(z3.Not(z3.Or(w.is_marker(dv), dv == V.none, z3.And(V.is_ref(dv), CALLABLE(dv)), isa(it, d, it.B['type']),
                                   isa(it, d, w.fields['Hook']))))
            kw['default'] = it.lift(dv)
        elif self.default == 'none':
            kw['default'] = None
        elif self.default == 'optional':
            kw['optional'] = True
        elif self.default == 'callable':
            kw['default'] = BuiltinFn('make_default', default_call)
        elif self.default == 'object':
            kw['default'] = callable_object(it, default_call)
        elif self.default == 'unset' and it.choose(2):
            kw['optional'] = False
        if 'translate' in self.mid:
            d = self.translations = it.new_dict(label='translations')
            for i, k in enumerate(('a', 'b')):
                it.dict_set(d, k, it.lift(z3.Const('tr%d' % i, V)))
        if 'ignore' in self.mid:
            ig = ['skip', None]
            self.ignores = it.list_of(ig)
        src = Sym(self.key)
        cls = w.fields[self.cls]
        call = lambda o, m, *a, **k: it.call(it.getattr(o, m), list(a), k)          # noqa: E731
        if it.choose(2):
            if 'translate' in self.mid:
                kw['translate'] = d
            if 'ignore' in self.mid:
                kw['ignore'] = ig[0]
            f = it.instantiate(cls, [src], kw)
            back = call(f, 'ignore', *ig[1:]) if 'ignore' in self.mid else f
        else:
            f = it.instantiate(cls, [src], {})
            back = call(f, 'options', **kw)
            if 'translate' in self.mid:
                back = call(back, 'translate', d)
            if 'ignore' in self.mid:
                back = call(call(back, 'ignore', ig[0]), 'ignore', *ig[1:])
        it.prove('setting options gives back the field', back is f)
        w.attach(f)
        w.register(f, *([m for m in self.mid if m in HOOKS] + (['default'] if self.default == 'hook' else [])))
        return f

    # ---------------------------------------------------------------- the statement
    def due_default(self, it, w, o, absent):
        """The value is missing: the default, or a Missing error."""
        if self.default == 'hook' and (absent or not it.branch(w.ignore_default)):
            o.calls.append(('default', [], self.inner))
            o.value = w.result_of('default')
            return
        if self.default in ('unset', 'hook') or it.branch(w.ignore_default):
            o.value = NOTHING
            if not it.branch(w.ignore_missing):
                o.errors.append(('Missing', self.inner))
            return
        o.value = {'const': z3.Const('default_value', V), 'none': V.none, 'optional': w.none}.get(self.default)
        if o.value is None:
            o.value = z3.Const('made', V)
            o.made = True

    def outline(self, it, w, f, given):
        o = Outline()
        o.made = False
        inner = w.p0 if self.start in ('explicit', 'resolve', 'flat') else z3.Concat(w.p0, z3.Unit(V.str(self.key)))
        self.inner = inner
        if self.start == 'resolve':
            o.calls.append(('resolve', [], w.p0))
        if self.start == 'explicit':
            v = given
        elif self.start == 'compute':
            o.calls.append(('compute', [], inner))
            if self.threw(w, o, 'compute'):
                return o
            v = w.result_of('compute')
        else:
            s = inner
            if not it.branch(P_EXISTS(s)):
                v = w.none
            elif it.branch(P_NULL(s)):
                v = V.none
            elif self.start == 'parse':
                o.calls.append(('parse', [w.path], inner))
                exc = self.thrown(w, 'parse')
                if exc in ('ValueError', 'SourceError'):
                    o.errors.append(('Invalid', inner))
                    o.value, o.marker = NOTHING, w.error
                    return o
                if exc:
                    o.raised = exc
                    return o
                v = w.result_of('parse')
            else:
                tag = z3.StringVal({'Field': 'None', 'Integer': 'int', 'String': 'str', 'Float': 'float', 'Boolean': 'bool'}[self.cls])
                if not it.branch(P_OK(s, tag)):
                    o.errors.append(('Invalid', inner))
                    o.value, o.marker = NOTHING, w.error
                    return o
                v = P_PRIM(s, tag)
        if self.start != 'explicit':
            if it.branch(v == w.none):
                self.due_default(it, w, o, True)
                return o
            if it.branch(w.is_marker(v)):
                o.value, o.marker = NOTHING, v
                return o
        # translate
        if 'translate' in self.mid and isin(it, self.translations, it.lift(v)):
            v = it.to_V(it.dict_get(self.translations, it.lift(v))) if self.what == 'options' else z3.Select(z3.Const('tr_val', MAPS), v)
        if 'munge' in self.mid and not it.branch(w.is_marker(v)):
            o.calls.append(('munge', [it.lift(v)], inner))
            if self.threw(w, o, 'munge'):
                return o
            v = w.result_of('munge')
        if it.branch(v == w.none):
            self.due_default(it, w, o, False)
            return o
        if it.branch(w.is_marker(v)):
            o.value, o.marker = NOTHING, v
            return o
        # filter
        if 'ignore' in self.mid:
            if isin(it, self.ignores, it.lift(v)):
                self.due_default(it, w, o, False)
                return o
        if 'filter' in self.mid:
            o.calls.append(('filter', [it.lift(v)], inner))
            if self.threw(w, o, 'filter'):
                return o
            if not it.branch(w.result_of('filter')):
                self.due_default(it, w, o, False)
                return o
        # validate
        if self.nullable is False and it.branch(v == V.none):
            o.errors.append(('Invalid', inner))
            o.value, o.marker = NOTHING, w.error
            return o
        if 'validate' in self.mid:
            o.calls.append(('validate', [it.lift(v)], inner))
            if self.threw(w, o, 'validate'):
                return o
            if not it.branch(w.result_of('validate')):
                o.value, o.marker = NOTHING, w.error
                return o
        o.value = v
        return o

    def thrown(self, w, name):
        for t in w.trace:
            if t[0] == name and t[3]:
                return t[3]
        return None

    def threw(self, w, o, name):
        o.raised = self.thrown(w, name)
        return o.raised is not None

    # ---------------------------------------------------------------- the proof
    def run(self, it):
        w = World(it)
        if self.what == 'raising':
            for h in ('compute', 'munge', 'filter', 'validate'):
                w.raises[h] = ['KeyError']
            w.raises['parse'] = ['ValueError', 'SourceError', 'KeyError']
        elif self.start == 'parse':
            w.raises['parse'] = ['ValueError', 'SourceError']
        f = self.make(it, w)
        given = None
        args = []
        if self.start == 'explicit':
            given = z3.Const('given', V)
            it.assume(z3.Not(w.is_marker(given)))
            args = [it.lift(given)]
        if self.start == 'flat':
            it.set_attr_raw(f, 'src', None)
        r = attempt(it, lambda: it.call(it.getattr(f, 'map'), args))
        o = self.outline(it, w, f, given)
        it.cover('mapped')
        if o.raised:
            it.prove('the hook\'s own exception propagates', not r.ok and r.exc.cls is it.B[o.raised])
        else:
            it.prove('mapping does not raise', r.ok)
        w.restored()
        w.same_calls(o.calls)
        new = w.new_errors()
        it.prove('earlier errors are kept', new is not None)
        if new is None:
            return
        it.prove('exactly the due errors are recorded', len(new) == len(o.errors), info='%s new, %s due' % (len(new), o.errors))
        for e, (c, keys) in zip(new, o.errors):
            w.expect_error(e, c, f, keys)
        if not r.ok or o.raised:
            return
        it.prove('the default is made only when due, once', len(self.made) == (1 if o.made else 0))
        if o.value is NOTHING:
            it.prove('no value', w.no_value(r.value))
            if o.marker is not None:
                it.prove('the marker is passed on', it.to_V(r.value) == o.marker)
        else:
            it.prove('the result is the due value', it.to_V(r.value) == o.value)
            if o.made and not self.mid and self.start == 'source':
                # made anew for every mapping
                r = attempt(it, lambda: it.call(it.getattr(f, 'map'), args))
                it.prove('another mapping makes another default', r.ok and len(self.made) == 2 and it.to_V(r.value) == z3.Const('made again', V))
