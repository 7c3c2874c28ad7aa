import json

import srcs
from srcs import JsonSource, bad
RULE = 'random native and JSON documents, aliases and ignore patterns with random key paths against an independent lookup; ' \
       'non-trivial: distinct case'


def D(**kw):
    return {'dict': [[k, v] for k, v in kw.items()], 'ikeys': [], 'cls': ''}


FIXED = []
one, two = {'prim': 1}, {'prim': 2}
for doc in [D(a=one), {'obj': [['a', one]]}, {'dict': [['a.b', one], ['a', D(b=two)]], 'ikeys': [], 'cls': ''},
            {'obj': [['a', {'obj': [['b', one]]}]]}, {'list': [one, two], 'cls': ''}, D(a={'fn': D(b=one)}), D(keys=one), D(a={'prim': None}),
            {'dict': [['a', {'prim': False}], ['b', {'fn': {'prim': None}}]], 'ikeys': [], 'cls': ''}, D(a={'prim': ''}, x={'prim': 0}),
            {'dict': [['a', one]], 'ikeys': [[0, two]], 'cls': '', 'attrs': [['a', two], ['b', {'prim': 3}], ['x', two]]}]:
    for al in (None, [['a', 'b'], ['x', 'a'], ['b', 1]], [['a', 0]], [['keys', 'a'], ['count', 0], ['b', 'a']]):
        for keys in (['a'], ['a', 'b'], ['a.b'], ['x'], ['b'], ['a()'], ['a()', 'b'], ['a.b()'], ['keys'], ['count'], ['b()'], ['x', 'a'], [0], [5],
                     ['b', 'b'], ['x.b'], ['a', 'a'], ['a', 'x']):
            for ig in ([], ['a'], ['a.b'], ['b']):
                FIXED.append({'kind': 'native', 'doc': doc, 'aliases': al, 'ignores': ig,
                              'ops': [['append', k] for k in keys]})
                if not al and not ig and 'obj' not in doc and 'attrs' not in doc and 'fn' not in str(doc):
                    FIXED.append({'kind': 'json', 'doc': doc, 'aliases': None, 'ignores': [], 'ops': [['append', k] for k in keys]})


def cases(rng):
    c = srcs.gen_case(rng)
    c['ops'] = [['append', srcs.pick_key(rng, c['doc'])] for _ in range(rng.randint(1, 4))]
    return c


def documents():
    for data in ({'k': 'caf\u00e9'}, ['\u00df', None, 1.5], 'x', 7):
        text = json.dumps(data, ensure_ascii=False)
        yield {'kind': 'document', 'data': data, 'args': [text]}
        yield {'kind': 'document', 'data': data, 'args': [text, 'latin-1']}
        yield {'kind': 'document', 'data': data, 'args': [text], 'encode': 'utf-8'}
        yield {'kind': 'document', 'data': data, 'args': [text, 'latin-1'], 'encode': 'latin-1'}
        yield {'kind': 'document', 'data': data, 'args': [text, 'cp037'], 'encode': 'cp037'}
    for text in ('', '{', 'nope'):
        yield {'kind': 'document', 'args': [text]}


FIXED += documents()


def document(case):
    args = list(case['args'])
    if 'encode' in case:
        args[0] = args[0].encode(case['encode'])
    try:
        got = JsonSource(*args).path().value
    except ValueError as ex:
        if 'data' in case:
            bad('JsonSource%r raises %r' % (tuple(args), ex))
        return
    if 'data' not in case:
        bad('JsonSource%r gives %r' % (tuple(args), got))
    srcs.same(got, case['data'], 'the document of JsonSource%r', tuple(args))


def check(case):
    return document(case) if case['kind'] == 'document' else srcs.play(case)
