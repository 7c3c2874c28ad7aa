"""C14: field attributes read the stored value or map it once."""
from .forms import *          # noqa: F401,F403

ASSUMPTIONS = ['rewinding goes to the innermost frame its predicate accepts, and is undone exactly (C02)',
               'mapping a field is under its contract (C06, C07): a value or a marker, and errors recorded with the current collector']
READER = '''
import pilo

class TheForm(pilo.Form):
    pass

def read(form):
    return form.a

def write(form, value):
    form.a = value

def delete(form):
    del form.a

def has(form):
    return form.has('a')

def has_field(form):
    return form.has(type(form).a)

def of_class(cls):
    return cls.a
'''


class Attribute(Harness):
    functions = (FIELDS + 'Field.__get__', FIELDS + 'Field.__set__', FIELDS + 'Field.__delete__')
    WAYS = ('outside', 'outside with source', 'current', 'enclosing', 'inactive')

    def __init__(self, op, way):
        self.op, self.way = op, way
        self.name = '%s-%s' % (op, way)
        if op.startswith('has'):
            self.functions = self.functions + (FIELDS + 'Form.has',)
            self.covers = ('stored', 'mapped', 'no value')
            return
        self.covers = {'read': ('stored', 'mapped', 'no value'), 'delete': ('stored', 'absent')}.get(op, ('done', ))

    def run(self, it):
        w = World(it, form=False)
        self.w, ctx = w, w.ctx
        E = Elements(it, w)
        ns = client(it, READER)
        cls = ns['TheForm']
        f = E.new('the-field')
        it.call(it.getattr(f, 'attach'), [cls, 'a'])
        cls.ns['a'] = f
        self.name_ = z3.StringVal('a')
        form = self.form = it.instantiate(cls, [], {})
        it.embedded.add(form.oid)
        dom0, val0 = z3.Const('stored', SETS), z3.Const('stored_values', MAPS)
        it.write_data(form)
        form.data = DictData(dom=dom0, val=val0)
        ka = V.str(self.name_)
        stored = z3.Select(dom0, ka)
        seen = []
        self.fault = z3.Const('field_faults', SEQ)
        out = z3.Const('field_result', V)

        def map_(it, a, k):
            st = ctx.attrs['stack']
            seen.append({'field': a[0], 'form': it.getattr(ctx, 'form', None), 'parent': it.getattr(ctx, 'parent', None), 'keys': self.keys(it),
                         'stack': it.list_term(st), 'errors': it.getattr(ctx, 'errors'), 'args': len(a) + len(k)})
            E.fail(it.getattr(ctx, 'errors'), self.fault)
            return it.lift(out)
        for n in ('map', '_map', '__call__'):
            E.cls.ns[n] = BuiltinFn(n, map_)
        self.place(it, w, form, E)
        before, p0 = it.list_term(ctx.attrs['stack']), keys_of(it, w.path)
        some = z3.Const('some_key', V)
        v = z3.Const('assigned', V)
        args = {'read': [form], 'write': [form, it.lift(v)], 'delete': [form], 'of_class': [cls]}.get(self.op, [form])
        r = attempt(it, lambda: it.call(ns[self.op], args))
        it.prove('the context stack is restored', it.list_term(ctx.attrs['stack']) == before)
        it.prove('the path is restored', keys_of(it, w.path) == p0)
        d, m = it.dict_arrays(form)

        def holds(dom, val):
            it.prove('the form has exactly the due keys', z3.Select(d, some) == z3.Select(dom, some))
            it.prove('each with its due value', z3.Implies(z3.Select(d, some), z3.Select(m, some) == z3.Select(val, some)))

        def quiet():
            it.prove('the field is not mapped', not seen)
            it.prove('nothing is recorded', it.list_term(w.errors) == w.e0)
        asks = self.op.startswith('has')
        if self.op == 'of_class':
            it.cover('done')
            it.prove('the class gives the field itself', r.ok and r.value is f)
            quiet()
            holds(dom0, val0)
        elif self.op == 'write':
            it.cover('done')
            it.prove('assigning does not raise', r.ok)
            quiet()
            holds(z3.Store(dom0, ka, True), z3.Store(val0, ka, v))
        elif self.op == 'delete':
            it.cover('stored' if it.branch(stored) else 'absent')
            it.prove('deleting does not raise', r.ok)
            quiet()
            holds(z3.Store(dom0, ka, False), val0)
        elif it.branch(stored):
            it.cover('stored')
            if asks:
                it.prove('a stored value is had', r.ok and same(it, r.value, True if self.op == 'has' else Sym(z3.Select(val0, ka) != V.none)))
            else:
                it.prove('the stored value is read', r.ok and it.to_V(r.value) == z3.Select(val0, ka))
            quiet()
            holds(dom0, val0)
        else:
            it.prove('the field is mapped once', len(seen) == 1, info='%s %s' % (seen, r.value if r.ok else (r.exc, r.exc.data)))
            if len(seen) != 1:
                return
            s = seen[0]
            it.prove('the field itself, from its source', s['field'] is f and s['args'] == 1)
            it.prove('with the form current', s['form'] is form and s['parent'] is form)
            self.where(it, w, s)
            outside = self.way.startswith('outside')
            faulty = it.branch(z3.Length(self.fault) > 0)
            if it.branch(w.is_marker(out)) or (faulty and outside):
                it.cover('no value')
                ok = (['AttributeError'] if not (faulty and outside) else ['AttributeError', 'FormError'])
                it.prove('no value is not had', r.ok and r.value is False) if asks else it.prove('no value is an AttributeError', not r.ok and any(
                    it.exc_matches(r.exc, it.B['AttributeError'] if n == 'AttributeError' else member(it, 'pilo.fields', n)) is True for n in ok),
                    info='%s' % (r.value if r.ok else r.exc))
                holds(dom0, val0)
            else:
                it.cover('mapped')
                it.prove('the mapped value is had unless it is None', r.ok and same(it, r.value, Sym(out != V.none))) if asks else it.prove(
                    'the mapped value is read', r.ok and it.to_V(r.value) == out)
                holds(z3.Store(dom0, ka, True), z3.Store(val0, ka, out))
            it.prove('exactly the field\'s errors are recorded', it.list_term(w.errors) == (
                w.e0 if outside else z3.Concat(w.e0, self.fault)))

    def keys(self, it):
        p = it.getattr(self.w.ctx, 'src_path', None)
        if p is None:
            return None
        if p is self.w.path:
            return keys_of(it, p)
        if 'keys' in p.attrs:
            return z3.Concat(z3.Unit(it.to_V(p.attrs['src'])), it.list_term(p.attrs['keys']))
        return p

    # ------------------------------------------------------------ where the attribute is used
    def place(self, it, w, form, E):
        Frame = member(it, 'pilo.context', 'Frame')
        st = w.stack
        PAR = z3.StringVal('parent')
        if self.way.startswith('outside'):
            it.write_data(st)
            st.data.chunks.pop()          # no form is being mapped
            for n in ('form', 'parent', 'errors'):
                it.assume(z3.Not(BHAS(w.s0, z3.StringVal(n))))
            if self.way == 'outside with source':
                src = self.src = it.new(it.ghost['path_src_cls'], 'the-form-source')
                it.embedded.add(src.oid)
                it.set_attr_raw(form, 'src', src)
            return
        outer = self.outer = it.new(host_class(it, 'OtherForm', None, {}), 'another-form')
        it.embedded.add(outer.oid)
        other = self.other = it.new(host_class(it, 'SomeOther', None, {}), 'something-else')
        it.embedded.add(other.oid)
        w.top.data.items['form'] = w.top.data.items['parent'] = outer if self.way != 'current' else form
        if self.way == 'current':
            return
        inner = z3.Const('inner_frames', SEQ)
        fc = st.data.chunks[0][2]
        j = z3.Int('j')
        fv = it.to_V(form)
        own = None
        it.write_data(st)
        if self.way == 'enclosing':
            own = it.instantiate(Frame, [], {'form': form, 'parent': form})
            self.own = own
            st.data.chunks.append(('e', own))
            self.home = it.list_term(st)          # the stack, as of the form's own frame
        # unknown frames inside it, with the keys they added to the path: none of them is the form's
        st.data.chunks.append(('s', inner, fc))
        added = z3.Const('added_keys', SEQ)
        it.write_data(w.path.attrs['keys'])
        w.path.attrs['keys'].data.chunks.append(('s', added, None))
        top = it.instantiate(Frame, [], {'field': other, 'parent': other, 'form': outer})
        st.data.chunks.append(('e', top))
        not_mine = lambda fr: z3.Implies(FHAS(fr, PAR), FGET(fr, PAR) != fv)          # noqa: E731
        it.assume(z3.Implies(z3.And(j >= 0, j < z3.Length(inner)), not_mine(inner[j])))
        k = z3.Int('k')
        if self.way == 'inactive':
            # (the collector and the path are those of the form being mapped, or the unknown frames' own)
            it.assume(z3.And([z3.Not(BHAS(inner, z3.StringVal(n))) for n in ('errors', 'src_path')]))
            it.assume(z3.Implies(z3.And(k >= 0, k < z3.Length(w.s0)), not_mine(w.s0[k])))
        RDNS = it.getattr(w.ctx, 'RewindDidNotStop')

        def rewind(it, fn_, args, kwargs):
            """The contract of Context.rewind, for this stack."""
            stop = args[1] if len(args) > 1 else kwargs['stop']
            stopped = lambda fr: it.truth(it.call(stop, [fr]))          # noqa: E731
            frames = [top, ('inner', inner, j)] + ([own] if own is not None else [w.top, ('base', w.s0, k)])
            for fr in frames:
                if isinstance(fr, tuple):
                    _, seq, i = fr
                    if it.branch(z3.And(i >= 0, i < z3.Length(seq))):
                        it.prove('a scope of another form is passed over', not stopped(it.lift(seq[i], fc)))
                elif fr is own:
                    it.prove('the form\'s own scope is the one to go back to', stopped(fr))
                else:
                    it.prove('another form\'s scope is passed over', not stopped(fr))
            if own is None:
                raise PyRaise(it.instantiate(RDNS, [], {}))
            saved, keys = list(st.data.chunks), list(w.path.attrs['keys'].data.chunks)
            it.write_data(st)
            st.data.chunks = saved[:-2]
            it.write_data(w.path.attrs['keys'])
            w.path.attrs['keys'].data.chunks = keys[:-1]

            def close(it, a, k):
                it.prove('the scope is left as it was entered', it.list_term(st) == self.home)
                it.write_data(st)
                st.data.chunks = saved
                it.write_data(w.path.attrs['keys'])
                w.path.attrs['keys'].data.chunks = keys
                return None
            return it.new(host_class(it, 'Rewound', None, {'__enter__': lambda it, a, k: a[0], '__exit__': close}), 'rewound')
        it.contracts['pilo.context.Context.rewind'] = rewind

    def where(self, it, w, s):
        """The field was mapped where it should."""
        if self.way == 'current':
            it.prove('where the form is', s['keys'] == w.p0)
        elif self.way == 'enclosing':
            it.prove('in the form\'s own scope', s['stack'] == self.home)
            it.prove('at the form\'s path', s['keys'] == w.p0)
            it.prove('with the collector of the form', s['errors'] is w.errors)
        elif self.way == 'inactive':
            p = s['keys']
            it.prove('from an empty source', isinstance(p, Obj) and 'src' in p.attrs)
        elif self.way == 'outside with source':
            it.prove('from the form\'s source', not isinstance(s['keys'], Obj) and s['keys'] == z3.Unit(it.to_V(self.src)))


OTHERS = READER + """

class TheForm(pilo.Form):
    plain = 5

def has_name(form, name):
    return form.has(name)
"""


class Others(Harness):
    """A name that is no field is had exactly when a value is stored under it."""
    functions = (FIELDS + 'Form.has',)
    covers = ('stored', 'not stored')

    def __init__(self, name):
        self.asked = name
        self.name = 'has-no-field-' + name

    def run(self, it):
        w = World(it, form=False)
        ns = client(it, OTHERS)
        form = it.instantiate(ns['TheForm'], [], {})
        dom0, val0 = z3.Const('stored', SETS), z3.Const('stored_values', MAPS)
        it.write_data(form)
        form.data = DictData(dom=dom0, val=val0)
        some = z3.Const('some_key', V)
        stored = z3.Select(dom0, V.str(z3.StringVal(self.asked)))
        before = it.list_term(w.ctx.attrs['stack'])
        r = attempt(it, lambda: it.call(ns['has_name'], [form, self.asked]))
        there = it.branch(stored)
        it.cover('stored' if there else 'not stored')
        it.prove('it answers whether a value is stored', r.ok and same(it, r.value, there), info='%s' % (r.value if r.ok else r.exc))
        d, m = it.dict_arrays(form)
        it.prove('the form is as it was', z3.And(z3.Select(d, some) == z3.Select(dom0, some), z3.Implies(
            z3.Select(d, some), z3.Select(m, some) == z3.Select(val0, some))))
        it.prove('the context is as it was', it.list_term(w.ctx.attrs['stack']) == before)
        it.prove('nothing is recorded', it.list_term(w.errors) == w.e0)


HARNESSES = [Attribute(op, way) for op in ('read', 'has', 'has_field') for way in Attribute.WAYS] + [Attribute(op, way) for op in ('write', 'delete') for way in (
    'outside', 'enclosing')] + [Attribute('of_class', 'outside'), Attribute('of_class', 'current')] + [Others(n) for n in ('nothing', 'plain', 'items', 'fields')]
