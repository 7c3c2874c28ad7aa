"""C12 on the real code."""
from model import map_case, enc
from gens import G, NAMES

RULE = 'forms of 1-5 tagged fields (plain, container, sub form), previously stored values, tags, reset, unmapped ignore/capture/field; ' \
       'non-trivial: distinct (form, document, options)'


#: kinds of field without forms of their own (which would see tags given in the context)
PLAIN = ('field', 'string', 'integer', 'float', 'boolean', 'decimal', 'date', 'time', 'datetime', 'uuid')


def cases(rng):
    g = G(rng)
    form = g.form(g.fields(rng.randint(1, 5), 1, tags=True))
    kw = {}
    if g.p(.5):
        kw['tags'] = rng.sample(['t', 'u', 'v', 'w'], rng.randint(1, 2))
        kw['tags_as'] = g.pick('list', 'set')
        if g.p(.3) and not any(f['k'] not in PLAIN for n, f in form['fields']):
            kw['tags_in'] = g.pick('context', 'over')
    kw['reset'] = g.p(.4)
    if g.p(.5):
        kw['unmapped'] = g.pick('capture', 'ignore', g.base('integer'), g.base('string', default=['const', 'd']), 'capture')
    kw['stored'] = [[n, enc(g.pick('old', 0, None, [1]))] for n in NAMES + ['x', 'other'] if g.p(.35)]
    c = g.case(form, **kw)
    if g.p(.1) and c['kind'] == 'native' and kw.get('unmapped', 'ignore') == 'ignore':
        c['data'] = enc([g.scalar() for _ in range(rng.randint(0, 4))])
    return c


FIXED = [{'form': {'name': 'F', 'fields': [['a', {'id': 1, 'k': 'integer', 'tags': ['t']}], ['b', {'id': 2, 'k': 'integer', 'tags': ['u']}], ['c', {'id': 3, 'k': 'integer'}]]},
          'kind': 'native', 'data': enc(d), 'stored': [['a', 'old'], ['b', 'old'], ['c', 'old'], ['x', 'old']], 'reset': reset, 'tags': tags,
          'tags_as': how, 'tags_in': where}
         for d in ({}, {'a': 1, 'b': 2, 'c': 3}) for reset in (False, True) for tags in (['t'], ['t', 'u'], ['v']) for how in ('list', 'set')
         for where in ('argument', 'context', 'over')]


def check(case):
    map_case(case)
