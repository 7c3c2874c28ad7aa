"""C06 on the real code."""
from model import map_case
from gens import G

RULE = 'forms of 1-3 fields with every kind of default, munge/filter/compute/parse hooks answering markers, ignored values, and both ' \
       'ignore flags, over documents with absent, null and odd values; non-trivial: distinct (form, document, flags)'


def field(g):
    f = g.base(g.pick('field', 'string', 'integer', 'field'))
    if g.p(.8):
        f['default'] = g.default()
    if g.p(.6):
        f['hooks'] = g.hooks(('compute', 'parse', 'munge', 'filter'), .3, .02)
    if g.p(.3):
        f['ignores'] = [g.scalar() for _ in range(3)]
    if g.p(.1):
        f['nullable'] = g.pick(True, False)
    if g.p(.1):
        f['nullable_after'] = g.pick(True, False, False)
    return f


def cases(rng):
    g = G(rng)
    form = g.form([[n, field(g)] for n in ('a', 'b', 'c')[:rng.randint(1, 3)]])
    return g.case(form, doc=g.doc(form, present=.5), ignore_default=g.p(.25), ignore_missing=g.p(.25))


def fixed():
    import random
    out = []
    for d in (None, ['const', 0], ['const', None], ['none'], ['optional'], ['callable', 'made'], ['object', 'made'], ['class'], ['hook', ['const', 'h']]):
        for how in ('absent', 'null', 'compute', 'munge', 'filter', 'ignore', 'parse'):
            for k in ('field', 'integer', 'string'):
                for ig in (0, 1, 2, 3):
                    f = {'id': 1, 'k': k}
                    if d:
                        f['default'] = d
                    if how in ('compute', 'munge', 'parse'):
                        f['hooks'] = {how: ['NONE']}
                    elif how == 'filter':
                        f['hooks'] = {how: ['false']}
                    elif how == 'ignore':
                        f['ignores'] = ['12', 12]
                    data = {} if how == 'absent' else {'a': None} if how == 'null' else {'a': '12'}
                    out.append({'form': {'name': 'F', 'fields': [['a', f]]}, 'kind': 'native', 'data': data,
                                'ignore_default': bool(ig & 1), 'ignore_missing': bool(ig & 2)})
    return out


FIXED = fixed() + [{'form': {'name': 'F', 'fields': [['a', {'id': 1, 'k': k, 'default': d}]]}, 'kind': 'native', 'data': data, 'again': True}
                   for d in (['callable', []], ['callable', ['x']], ['object', []], ['class']) for k in ('field', 'integer', 'string')
                   for data in ({}, {'a': None}, {'a': '12'})]
FIXED += [{'form': {'name': 'F', 'fields': [['a', dict({'id': 1, 'k': k, 'nullable_after': n}, **d)]]}, 'kind': 'native', 'data': data}
          for d in ({}, {'default': ['none']}, {'default': ['const', 0]}, {'default': ['optional']}, {'default': ['hook', ['none']]},
                    {'default': ['none'], 'hooks': {'munge': ['none']}}, {'default': ['none'], 'hooks': {'compute': ['none']}})
          for n in (True, False) for k in ('field', 'integer', 'string') for data in ({}, {'a': None}, {'a': '12'})]


def check(case):
    map_case(case)
