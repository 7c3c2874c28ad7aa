"""C10 on the real code."""
from model import map_case
from gens import G

RULE = 'list and dict fields with size limits and required keys given in every way, elements partly dropped, over documents of 0-4 ' \
       'elements and null; non-trivial: distinct (field, document)'


def cases(rng):
    g = G(rng)
    f = g.container(0, limits=True, kinds=('list', 'dict'))
    return g.case(g.form([['a', f]]), doc={'a': g.data_for(f)})


def fixed():
    out = []
    for n in range(5):
        for lo in (None, 0, 1, 2, 3):
            for hi in (None, 0, 1, 2, 3):
                w = [{'min_length': lo, 'max_length': hi}]
                calls = ([['min', [lo]]] if lo is not None else []) + ([['max', [hi]]] if hi is not None else [])
                w.append({'calls': calls})
                if lo is not None and hi is not None:
                    w += [{'length': [lo, hi]}, {'calls': [['range', [lo, hi]]]}]
                for o in w:
                    for drop in (False, True):
                        f = dict({'id': 1, 'k': 'list', 'field': {'id': 2, 'k': 'integer', 'ignores': [1], 'default': ['optional']}}, **o)
                        out.append({'form': {'name': 'F', 'fields': [['a', f]]}, 'kind': 'native', 'data': {'a': [
                            1 if drop and i == 0 else 5 + i for i in range(n)]}})
        for req in ([], ['a'], ['a', 'd'], ['z']):
            for mx in (None, 1, 2, 3):
                f = {'id': 1, 'k': 'dict', 'key': {'id': 2, 'k': 'string'}, 'value': {'id': 3, 'k': 'integer'}, 'required_keys': req}
                if mx:
                    f['max_keys'] = mx
                out.append({'form': {'name': 'F', 'fields': [['a', f]]}, 'kind': 'native', 'data': {'a': dict((x, 1) for x in 'abcd'[:n])}})
    for k in ('list', 'dict'):
        for nul in ({}, {'nullable': True}, {'nullable': False}):
            f = dict({'id': 1, 'k': k, 'field': {'id': 2, 'k': 'integer'}, 'key': {'id': 2, 'k': 'string'}, 'value': {'id': 3, 'k': 'integer'}}, **nul)
            out.append({'form': {'name': 'F', 'fields': [['a', f]]}, 'kind': 'native', 'data': {'a': None}})
    return out


FIXED = fixed()


def check(case):
    map_case(case)
