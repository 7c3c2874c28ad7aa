"""C17 on the real code."""
import pilo
from lib import need
from model import map_case
from gens import G

RULE = 'a polymorphic sub form over a base class and 1-3 derived classes (own, shared and several identities, type field not first), over ' \
       'values with right, wrong, null and absent identities, next to other fields; non-trivial: distinct (classes, document)'


def poly(g):
    r = g.r
    lead = g.fields(r.randint(0, 1), 0)
    base = g.form(lead + [['t', g.base('type', choices_=g.pick(None, None, None, ['base'], ['t1', 't2', 't3', 'base']))]] + [
        [n, f] for n, f in g.fields(r.randint(0, 3), 0) if n not in dict(lead)])
    forms = []
    for i in range(r.randint(1, 3)):
        ids = r.sample(['t1', 't2', 't3', 't4'], r.randint(1, 2))
        forms.append(dict(g.form([['t', g.base('type', choices_=ids)]] + [['x%d' % i, g.element(0)]] + (
            [['y', g.element(0)]] if g.p(.4) else [])), base=base if i == 0 or g.p(.6) else forms[-1]))
    f = g.base('poly', type_name='t', base=base, forms=forms)
    if g.p(.2):
        f['default'] = g.default()
    if g.p(.2):
        f['unmapped'] = 'capture'
    return f


def cases(rng):
    while True:
        g = G(rng)
        f = poly(g)
        ids = [i for s in [f['base']] + f['forms'] for n, x in s['fields'] if n == 't' for i in x['choices_'] or []]
        if len(ids) == len(set(ids)):
            break
    fields = [['p', f]]
    if g.p(.3):
        fields = [['ps', g.base('list', field=f)]]
    if g.p(.4):
        fields.append(['z', g.element(0)])
    return g.case(g.form(fields))


def cast_cases():
    for shape in (['ab'], ['a', 'bc'], ['a', 'b', 'cd'], ['', 'ab', 'c']):
        for parents in ([0] * len(shape), list(range(len(shape)))):
            for lead in (0, 1):
                for ident in ['a', 'b', 'c', 'd', 'x', None, 3, '-']:
                    yield {'cast': ident, 'shape': shape, 'parents': parents, 'lead': lead}


def cast_case(case):
    """Type.cast: the class whose own identities have the value's, however deep and wherever the type field stands."""
    T = pilo.fields.Type
    body = {'kind': T.abstract()}
    if case['lead']:
        body = dict({'first': pilo.fields.String(default='d')}, **body)
    classes = [type('Base', (pilo.Form,), body)]
    for i, (ids, p) in enumerate(zip(case['shape'], case['parents'])):
        classes.append(type('D%d' % i, (classes[p],), {'kind': T.instance(*ids), 'own%d' % i: pilo.fields.Integer()} if ids else {}))
    value = {} if case['cast'] == '-' else {'kind': case['cast']}
    due = [c for ids, c in zip(case['shape'], classes[1:]) if case['cast'] is not None and isinstance(case['cast'], str) and case['cast'] in ids]
    for again in range(2):
        try:
            got = classes[0].kind.cast(value)
        except ValueError:
            got = None
        need(got is (due[0] if due else None), 'casting %r gives %r, expected %r', value, got, due)


FIXED = list(cast_cases())


def check(case):
    if 'cast' in case:
        return cast_case(case)
    map_case(case)
