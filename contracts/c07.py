"""C07: the steps of the pipeline run in order, each seeing the previous one's result, and the context is restored."""
from .pipeline import Pipeline
from .fieldlib import *          # noqa: F401,F403


class Parents(Harness):
    """A field with `attach_parent` gives its value a reference to what it was mapped for: the enclosing form or field."""
    functions = (FIELDS + 'Field.map', FIELDS + 'Field.options')

    def __init__(self, how, place):
        self.how, self.place = how, place
        self.name = 'parent-%s-%s' % (how, place)
        self.covers = ('value', 'null', 'marker') if how == 'computed' else ('value',)

    def run(self, it):
        w = World(it)
        wanted = it.choose(2) == 0
        f = w.attach(it.instantiate(w.fields['Field'], [], {'attach_parent': wanted}))
        kind = ('value', 'null', 'marker')[it.choose(3)] if self.how == 'computed' else 'value'
        value = it.new(host_class(it, 'ClientValue', None, {'__bool__': lambda it, a, k: Sym(z3.Const('value_is_true', BOOL))}), 'the-value')
        it.embedded.add(value.oid)
        if self.place == 'nothing':
            del w.top.data.items['parent']
            it.assume(z3.Not(BHAS(w.s0, z3.StringVal('parent'))))
            want = None
        elif self.place == 'field':
            want = it.new(host_class(it, 'OuterField', None, {}), 'outer-field')
            w.top.data.items['parent'] = want
        else:
            want = w.form
        w.on_hook = lambda name, a: {'value': value, 'null': None, 'marker': w.NONE}[kind]
        args = []
        if self.how == 'computed':
            w.register(f, 'compute')
            it.set_attr_raw(f, 'nullable', True)
        else:
            args = [value]
        r = attempt(it, lambda: it.call(it.getattr(f, 'map'), args))
        it.cover(kind)
        w.restored()
        it.prove('mapping does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        if kind == 'marker':
            it.prove('a marker stays one', w.no_value(r.value))
        else:
            it.prove('the value is as it was', r.value is (value if kind == 'value' else None))
        got = value.attrs.get('parent', 'unset')
        it.prove('a value wanted to know gets what it was mapped for, no other does',
                 got is want if wanted and kind == 'value' else got == 'unset', info='%s' % (got,))


class Unhashable(Harness):
    """A value that cannot be a key is none of the translated ones."""
    functions = (FIELDS + 'Field._munge', FIELDS + 'Field.map')
    covers = ('done',)

    def __init__(self, kind, start):
        self.kind, self.start = kind, start
        self.name = 'translate-%s-%s' % (kind, start)

    def run(self, it):
        w = World(it)
        f = w.attach(it.instantiate(w.fields['Field'], [], {}))
        d = it.new_dict(label='translations')
        d.data = DictData(dom=z3.Const('tr_dom', SETS), val=z3.Const('tr_val', MAPS))
        it.set_attr_raw(f, 'translations', d)
        items = z3.Const('items', SEQ)
        value = it.new_list([('s', items, None)], 'the-value')
        if self.kind == 'dict':
            value = it.new_dict(label='the-value')
            value.data = DictData(dom=z3.Const('v_dom', SETS), val=z3.Const('v_val', MAPS))
        elif self.kind == 'tuple':
            value = (value,)
        own = w.on_hook
        w.on_hook = lambda name, a: value if name in ('compute', 'munge') and (own(name, a) or True) else own(name, a)
        w.register(f, *((['compute'] if self.start == 'compute' else []) + ['munge']))
        r = attempt(it, lambda: it.call(it.getattr(f, 'map'), [] if self.start == 'compute' else [value]))
        it.cover('done')
        w.restored()
        it.prove('mapping does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        it.prove('nothing is recorded', w.new_errors() == [])
        it.prove('the value is the same', r.ok and r.value is value)
        got = [a for n, a, _, _ in w.trace if n == 'munge']
        it.prove('the munge hook sees it', len(got) == 1 and got[0][1] is value)


MIDS = [(), ('munge',), ('filter',), ('ignore',), ('validate',), ('translate',), ('translate', 'munge', 'filter', 'validate')]
STARTS = ('source', 'compute', 'parse', 'resolve', 'explicit', 'flat')
HARNESSES = [Pipeline('map', 'unset', s, m) for s in STARTS for m in MIDS] + [
    Pipeline('map', 'unset', s, ('translate', 'munge', 'ignore', 'filter', 'validate')) for s in ('source', 'explicit')] + [
    Pipeline('map', 'const', 'source', m, c) for c in ('Integer', 'Float', 'Boolean', 'String') for m in ((), ('munge', 'filter', 'validate'))] + [
    Pipeline('raising', 'unset', s, ('munge', 'filter', 'validate')) for s in ('compute', 'parse', 'source')] + [
    Pipeline('options', d, 'source', ('translate', 'munge', 'ignore')) for d in ('unset', 'optional')] + [
    Parents(h, p) for h in ('computed', 'given') for p in ('form', 'field', 'nothing')] + [
    Unhashable(k, s) for k in ('list', 'dict', 'tuple') for s in ('compute', 'given')]
