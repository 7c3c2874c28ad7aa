"""Mapping a whole form: its fields are element fields under their contract, any number of them."""
from .elements import *          # noqa: F401,F403

NAME = fn('field_name', V, STR)
TAGS = fn('field_tags', V, SETS)
FORM = '''
import pilo

class TheForm(pilo.Form):
    pass
'''


class FormMap(Harness):
    functions = (FIELDS + 'Form.map', FIELDS + 'Form._map', FIELDS + 'Form._nested_map', FIELDS + 'Form._root_map')
    deadline = 300

    def setup(self, it, fields='any', stored=True):
        self.w = w = World(it)
        self.E = E = Elements(it, w)

        def tags(it, o):
            d = it.new_dict(label='tags')
            d.data = DictData(dom=TAGS(o.t), val=z3.Const('tag_values', MAPS))
            return d
        self.field_cls = host_class(it, 'SomeField', [E.cls], {
            'name': getter(lambda it, o: it.lift(NAME(o.t))), 'tags': getter(tags), 'src': None, 'attach_parent': False})
        self.cls = client(it, FORM)['TheForm']
        self.fields = z3.Const('fields', SEQ)
        self.cls.ns['fields'] = (it.new_list([('s', self.fields, self.field_cls)], 'TheForm.fields'))
        self.n = z3.Length(self.fields)
        self.form = it.instantiate(self.cls, [], {})
        E.form = self.form
        if stored:
            self.dom0, self.val0 = z3.Const('stored', SETS), z3.Const('stored_values', MAPS)
            it.write_data(self.form)
            self.form.data = DictData(dom=self.dom0, val=self.val0)
        else:
            self.dom0, self.val0 = it.dict_arrays(self.form)
        return w

    # ------------------------------------------------------------ what is selected
    def make_tags(self, it, how):
        """The tags argument and the predicate of a field being selected."""
        if how is None:
            return None, lambda f: z3.BoolVal(True)
        if how == 'unknown':
            t = z3.Const('tags', SETS)
            o = it.new(it.B['set'], 'tags-arg')
            o.data = SetData(dom=t)
            it.assume(it.set_nonempty_term(t))
            return o, lambda f: it.set_nonempty_term(z3.SetIntersect(t, TAGS(f)))
        ts = [z3.Const('tag%d' % i, V) for i in range(how[1])]
        if how[0] == 'list':
            o = it.list_of([it.lift(t) for t in ts])
        else:
            o = it.new(it.B['set'], 'tags-arg')
            o.data = SetData()
            for t in ts:
                it.set_add(o, it.lift(t))
        return o, lambda f: z3.Or([z3.Select(TAGS(f), t) for t in ts])

    def spec(self, it, at, selected, reset):
        """Ghost functions: what the form holds, and which errors there are, after the first k fields."""
        w, fs = self.w, self.fields
        val = lambda k: MAPPED(fs[k], at, w.none)          # noqa: E731
        nm = lambda k: V.str(NAME(fs[k]))          # noqa: E731
        kept = lambda k: z3.And(selected(fs[k]), z3.Not(w.is_marker(val(k))))          # noqa: E731
        self.rdom = PrefixFn('dom_reset', SETS, self.dom0, lambda k: z3.If(
            selected(fs[k]), z3.Store(self.rdom.f(k), nm(k), False), self.rdom.f(k)))
        start = self.rdom.f(self.n) if reset else self.dom0
        self.dom = PrefixFn('dom', SETS, start, lambda k: z3.If(kept(k), z3.Store(self.dom.f(k), nm(k), True), self.dom.f(k)))
        self.val = PrefixFn('vals', MAPS, self.val0, lambda k: z3.If(kept(k), z3.Store(self.val.f(k), nm(k), val(k)), self.val.f(k)))
        self.faults = PrefixFn('all_faults', SEQ, z3.Empty(SEQ), lambda k: z3.If(
            selected(fs[k]), z3.Concat(self.faults.f(k), FAULTS(fs[k], at, w.none)), self.faults.f(k)))
        it.prefix_fns += ([self.rdom] if reset else []) + [self.dom, self.val, self.faults]
        it.prefix_facts(z3.IntVal(0), None)
        self.some = z3.Const('some_key', V)

        def cands(it, loop):
            out = {}
            for n, t in loop['cur'].items():
                if t.sort() == MAPS:
                    d = loop['cur'].get(n.replace('.val', '.dom'))
                    if d is not None:
                        for pf in (self.val, ):
                            out['vals ' + n] = z3.Implies(z3.Select(d, self.some), z3.Select(t, self.some) == z3.Select(
                                pf.f(loop['k']), self.some))
                        out['vals00 ' + n] = z3.Implies(z3.Select(d, self.some), z3.Select(t, self.some) == z3.Select(self.val0, self.some))
            return out
        it.extra_cands = cands

    def content(self, it, dom, val, what=''):
        d, v = it.dict_arrays(self.form)
        it.prove('the form has exactly the due keys' + what, z3.Select(d, self.some) == z3.Select(dom, self.some))
        it.prove('each with its due value' + what, z3.Implies(z3.Select(d, self.some), z3.Select(v, self.some) == z3.Select(val, self.some)))
