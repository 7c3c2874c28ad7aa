"""C16 on the real code."""
from lib import need, run, eq
from pilo import NONE
from pilo.source import DefaultSource, JsonSource, MountSource, PathPart, SourceError, UnionSource
import copy
import json

RULE = 'unions of 1-4 documents of a common shape (keys present or absent per document), all merge settings, walked through mapping, ' \
       'sequence and primitive reads in random order with popping and re-reading; non-trivial: distinct (documents, merges, walk)'
KEYS = ['a', 'b', 'c', 'd']


def shape(rng, depth):
    r = rng.random()
    if depth == 0 or r < .3:
        return ['prim']
    if r < .7:
        return ['map', dict((k, shape(rng, depth - 1)) for k in rng.sample(KEYS, rng.randint(1, 4)))]
    return ['seq', shape(rng, depth - 1)]


def value(rng, s):
    if s[0] == 'prim':
        return rng.choice([0, 1, 'x', 'y', '12', 1.5, True, ''])
    if s[0] == 'map':
        return dict((k, value(rng, x)) for k, x in s[1].items() if rng.random() < .65)
    return [value(rng, s[1]) for _ in range(rng.randint(0, 3))]


def cases(rng):
    s = ['map', dict((k, shape(rng, 2)) for k in KEYS)]
    docs = [value(rng, s) for _ in range(rng.randint(1, 4))]
    m = rng.choice(['first', 'last', 'combine', 'combine', 'bad'])
    c = {'docs': docs, 'json': [rng.choice(['', '', '', 'json', 'json', 'source', 'mount', 'union', 'union']) for _ in docs], 'parts': rng.random() < .2, 'merge': m, 'mapping_merge': None, 'sequence_merge': None,
         'walk': [[rng.random(), rng.random()] for _ in range(rng.randint(3, 25))]}
    if rng.random() < .4:
        c['mapping_merge'] = rng.choice(['first', 'last', 'combine', 'bad'])
    if rng.random() < .4:
        c['sequence_merge'] = rng.choice(['first', 'last', 'combine', 'bad'])
    return c


FIXED = []


def pick(vals, merge):
    if merge not in ('first', 'last', 'combine'):
        return None
    return vals[:1] if merge == 'first' else vals[-1:] if merge == 'last' else vals


class Node(object):
    """What the union holds at a path: the values of the sources that have it, or an opened container."""

    def __init__(self, vals):
        self.vals, self.opened = vals, None


def wrap(d, how):
    if how == 'source':
        return DefaultSource(d)
    if how == 'mount':
        return MountSource(**dict((k, DefaultSource(v)) for k, v in d.items()))
    if how == 'union':          # (a union of one is that one)
        return UnionSource([d], merge='last')
    return JsonSource(json.dumps(d)) if how else d


def check(case):
    docs = [copy.deepcopy(d) for d in case['docs']]
    srcs = [wrap(d, j) for d, j in zip(docs, case['json'])]
    given = list(srcs)
    u = UnionSource(given, merge=case['merge'], mapping_merge=case['mapping_merge'], sequence_merge=case['sequence_merge'])
    need(len(given) == len(srcs) and all(x is y for x, y in zip(given, srcs)), 'the list of sources was modified')
    mm = case['mapping_merge'] or case['merge']
    sm = case['sequence_merge'] or case['merge']
    def open_path():
        root = Node(case['docs'])
        root.opened = ('map', list(case['docs']))
        return u.path(), [root], []
    paths = [open_path()]
    p, stack, keys = paths[0]
    for a, r in case['walk']:
        if a > .93:
            # another path of the same union: one opened before, or a new one
            i = int(r * (len(paths) + 1))
            if i == len(paths):
                paths.append(open_path())
            p, stack, keys = paths[i]
        node = stack[-1]
        what = 'at %r (merge %s/%s of %r)' % (keys, mm, sm, case['docs'])
        if node is None:
            need(not p.exists, '%s: a missing key exists', what)
            p.pop(); keys.pop(); stack.pop()
            continue
        need(p.exists and not p.is_null, '%s: does not exist or is null', what)
        if node.opened is None:
            v = node.vals[0]
            if isinstance(v, dict):
                got, e = run(p.mapping)
                ch = pick(node.vals, mm)
                if ch is None:
                    need(isinstance(e, ValueError), '%s: an invalid merge gave %r', what, got if e is None else e)
                    p.pop(); keys.pop(); stack.pop()
                    continue
                need(e is None, '%s: mapping raised %r', what, e)
                node.opened = ('map', ch)
            elif isinstance(v, list):
                got, e = run(p.sequence)
                ch = pick(node.vals, sm) if len(node.vals) > 1 else node.vals
                if ch is None:
                    need(isinstance(e, ValueError), '%s: an invalid merge gave %r', what, got if e is None else e)
                    p.pop(); keys.pop(); stack.pop()
                    continue
                need(e is None, '%s: sequence raised %r', what, e)
                node.opened = ('seq', [x for y in ch for x in y])
            else:
                if r < .3:
                    # whatever else was asked for before
                    for t in (str, int, float, bool)[int(r * 10):]:
                        run(p.primitive, t)
                    got, e = run(p.primitive, type(v))
                    need(e is None and eq(got, v), '%s: primitive(%s) gave %r, expected %r', what, type(v), got if e is None else e, v)
                got, e = run(p.primitive)
                need(e is None and eq(got, v), '%s: primitive gave %r, expected %r', what, got if e is None else e, v)
                p.pop(); keys.pop(); stack.pop()
                continue
        kind, cont = node.opened
        if kind == 'map':
            got, e = run(p.mapping)
            want = set(k for d in cont for k in d)
            need(e is None and set(got) == want and len(list(got)) == len(want), '%s: mapping gave %r, expected %r', what,
                 got if e is None else e, sorted(want))
            _, e = run(p.sequence)
            need(isinstance(e, SourceError), '%s: a mapping is a sequence', what)
        else:
            got, e = run(p.sequence)
            need(e is None and got == len(cont), '%s: sequence gave %r, expected %d', what, got if e is None else e, len(cont))
            _, e = run(p.mapping)
            need(isinstance(e, SourceError), '%s: a sequence is a mapping', what)
        if a < .25 and len(stack) > 1:
            p.pop(); keys.pop(); stack.pop()
            continue
        if kind == 'map':
            k = KEYS[int(r * len(KEYS))]
            vals = [d[k] for d in cont if k in d]
        else:
            k = int(r * (len(cont) + 1))
            vals = cont[k:k + 1]
        p.append(PathPart(k) if case.get('parts') else k)
        keys.append(k)
        stack.append(Node(vals) if vals else None)
    need(docs == case['docs'], 'the union modified its sources')
