"""C07 on the real code."""
from lib import need, run
from model import map_case
from gens import G, SCALARS
from model import enc

RULE = 'forms of 1-3 fields with any combination of compute/parse/munge/filter/validate hooks (answering values, markers or raising), ' \
       'translations and ignored values; the order, arguments and path of every hook call is compared; non-trivial: distinct cases'


def field(g):
    f = g.base(g.pick('field', 'string', 'integer', 'field'))
    f['hooks'] = g.hooks(('compute', 'parse', 'munge', 'filter', 'validate'), .4, .06)
    if g.p(.2):
        f['default'] = g.default()
    if g.p(.4):
        f['ignores'] = [g.scalar() for _ in range(4)]
    if g.p(.4):
        seen = []
        for x in g.r.sample(SCALARS, 6):
            if x is not None and not any(x == y for y in seen):
                seen.append(x)
        f['translate'] = [[enc(x), enc(g.scalar())] for x in seen]
    if g.p(.2):
        f['nullable'] = g.pick(True, False)
    if g.p(.3):
        f['src'] = g.r.choice(['a', 'b', 'c', 'x'])
    return f


def cases(rng):
    g = G(rng)
    form = g.form([[n, field(g)] for n in ('a', 'b', 'c')[:rng.randint(1, 3)]])
    return g.case(form, doc=g.doc(form, present=.85))


FIXED = [{'parents': how, 'attach': attach, 'data': data} for how in ('sub', 'items', 'bare', 'given') for attach in (True, False)
         for data in ({}, {'s': None}, {'s': {'x': 1}}, {'s': [{'x': 1}, {'x': 2}]}, {'s': {}}, {'s': 3})]


def parents(case):
    """A value gets a reference to the form or field it was mapped for when its field is asked to attach it."""
    import pilo
    attach = case['attach']

    class Sub(pilo.Form):
        x = pilo.fields.Integer()
    sub = pilo.fields.SubForm(Sub, attach_parent=attach, nullable=True) if case['parents'] == 'items' else \
        pilo.fields.SubForm(Sub, attach_parent=attach, default=None)
    if case['parents'] == 'bare':
        with pilo.ctx(src=pilo.DefaultSource(case['data']), errors=pilo.fields.CollectErrors()):
            got, e = run(sub.attach(None, 's').map)
        need(e is None, 'mapping raised %r', e)
        if isinstance(got, Sub):
            need(getattr(got, 'parent', 'unset') is None if attach else not hasattr(got, 'parent'), 'parent is %r', getattr(got, 'parent', 'unset'))
        return

    class Top(pilo.Form):
        s = pilo.fields.List(sub, default=None) if case['parents'] == 'items' else sub
    top = Top()
    if case['parents'] == 'given':
        value = Sub()
        with pilo.ctx(parent=top):
            got, e = run(Top.s.map, value)
        need(e is None and got is value, 'mapping a given value gave %r', e or got)
        need(not hasattr(value, 'parent') if not attach else value.parent.__repr__.__self__ is top, 'parent is %r', getattr(value, 'parent', 'unset'))
        return
    got, e = run(top.map, case['data'])
    need(e is None, 'mapping %r raised %r', case['data'], e)
    v = top.get('s')
    for x in v if isinstance(v, list) else [v]:
        if isinstance(x, Sub):
            want = Top.s if case['parents'] == 'items' else top
            need(not hasattr(x, 'parent') if not attach else x.parent.__repr__.__self__ is want, 'parent is %r', getattr(x, 'parent', 'unset'))


FIXED += [{'unhashable': v, 'given': g} for v in ([], [1], {}, {'x': 1}, [[1]]) for g in (True, False)]


def unhashable(case):
    """A value which cannot be looked up in the translations is not translated."""
    import pilo
    v = case['unhashable']

    class F(pilo.Form):
        a = pilo.Field(translate={1: 'one', 'x': 'y'})
    if case['given']:
        got, e = run(F.a.map, v)
    else:
        f = F()
        errors, e = run(f.map, {'a': v})
        got = f.get('a')
        need(e is not None or errors == [], 'mapping %r reported %r', v, errors)
    need(e is None, 'mapping %r raised %r', v, e)
    need(got == v, '%r was mapped to %r', v, got)


def check(case):
    if 'parents' in case:
        return parents(case)
    if 'unhashable' in case:
        return unhashable(case)
    map_case(case)
