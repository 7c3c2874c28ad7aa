"""C08 on the real code."""
from model import map_case
from gens import G, TEXTS

RULE = 'a string field with any combination of length bounds, pattern, alphabet, choices, translations and nullability, over texts and ' \
       'null; non-trivial: distinct (constraints, text)'


def cases(rng):
    g = G(rng)
    f = g.string()
    form = g.form([['a', f]])
    t = rng.choice(TEXTS + [None]) if g.p(.5) else ''.join(rng.choice('abc1 ') for _ in range(rng.randint(0, 6)))
    return g.case(form, doc={'a': t})


def fixed():
    out = []
    opts = [{'length': 2}, {'length': [1, 3]}, {'length': [0, 2]}, {'min_length': 0}, {'min_length': 2}, {'max_length': 0}, {'max_length': 2}, {'min_length': 2, 'max_length': 2},
            {'pattern': 'ab'}, {'pattern': 'b'}, {'pattern': 'a$'}, {'alphabet': 'ab'}, {'choices': ['a', 'bb']}, {'choices': ['a']},
            {'choices': ['a'], 'translate': [['x', 'y']]}, {'alphabet': 'ab', 'min_length': 2, 'pattern': 'a.b', 'choices': ['aab', 'abb']},
            {'choices': ['a'], 'given_as': {'choices': 'set'}}, {'choices': ['a', 'bb'], 'given_as': {'choices': 'set'}},
            {'choices': ['a'], 'given_as': {'choices': 'tuple'}, 'translate': [['x', 'y']]}, {'alphabet': 'ab', 'given_as': {'alphabet': 'set'}},
            {'alphabet': 'ab', 'given_as': {'alphabet': 'list'}}]
    for o in opts:
        for nul in ({}, {'nullable': True}, {'nullable': False}):
            for t in ('', 'a', 'b', 'ab', 'ba', 'bb', 'aab', 'abb', 'abc', 'x', 'y', 'abcd', None, 'xab', 'a\nb', 'A'):
                out.append({'form': {'name': 'F', 'fields': [['a', dict({'id': 1, 'k': 'string'}, **dict(o, **nul))]]}, 'kind': 'native',
                            'data': {'a': t}})
    return out


FIXED = fixed()


def check(case):
    map_case(case)
