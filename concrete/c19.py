"""C19 on the real code."""
import copy
import json
from lib import need, run, eq
from pilo import NONE
from pilo.source import DefaultSource, JsonSource, MountSource, SourceError, UnionSource
import srcs as S

RULE = 'mounts of 0-10 native or JSON documents, random sequences of appending, replacing and removing last keys (also unknown mount points) and reading, ' \
       'compared with a fresh path of the mounted source at the remaining keys; non-trivial: distinct (documents, operations)'
MOUNTS = ['m', 'n', 'o', 'a', 'Z', 'm1', 'self_', 'key', 'x9', 'b']


def cases(rng):
    docs = []
    for k in MOUNTS[:rng.randint(1, 3) if rng.random() < .8 else rng.randint(0, 10)]:
        js = rng.random() < .3
        d = S.gen_doc(rng, 3, js)
        docs.append([k, 'json' if js else 'native', d if rng.random() < .95 else None])
    ops = []
    for _ in range(rng.randint(1, 20)):
        r = rng.random()
        ops.append(['push', rng.random(), rng.choice(S.KEYS + [0, 1, 2])] if r < .45 else ['pop'] if r < .6 else ['del'] if r < .65 else ['last', rng.random(), rng.choice(S.KEYS + [0, 1, 2])] if r < .75 else
                   ['path', rng.random()] if r < .82 else ['read'])
    return {'docs': docs, 'ops': ops}


FIXED = []


def make(kind, d):
    if kind == 'json':
        return JsonSource(json.dumps(S.build(d)))
    return DefaultSource(S.build(d))


def mounted(op, case):
    names = [d[0] for d in case['docs']] + ['zz']
    return names[int(op[1] * len(names))]


def check(case):
    srcs, raw = {}, {}
    for k, kind, d in case['docs']:
        if d is None:
            raw[k] = lambda: DefaultSource(None)
            srcs[k] = None
        else:
            raw[k] = lambda kind=kind, d=d: make(kind, d)
            v = make(kind, d)
            srcs[k] = v.data if kind == 'native' and isinstance(v.data, dict) else v
    m = MountSource(**srcs)
    p = m.path()
    keys = []
    opened = [(p, keys)]
    look(p, keys, raw)
    for op in case['ops']:
        if op[0] == 'path':
            # another path of the same source: one opened before, or a new one
            i = int(op[1] * (len(opened) + 1))
            if i == len(opened):
                opened.append((m.path(), []))
            p, keys = opened[i]
            look(p, keys, raw)
        elif op[0] == 'push':
            k = mounted(op, case) if not keys else op[2]
            p.append(k)
            keys.append(k)
        elif op[0] == 'last':
            if not keys:
                continue
            k = mounted(op, case) if len(keys) == 1 else op[2]
            p[-1] = k
            keys[-1] = k
        elif op[0] == 'del':
            if not keys:
                continue
            del p[-1]
            keys.pop()
        elif op[0] == 'pop':
            if not keys:
                continue
            p.pop()
            keys.pop()
        else:
            look(p, keys, raw)
    for p, keys in opened:
        look(p, keys, raw)


def same(a, b):
    if a[1] is not None or b[1] is not None:
        return type(a[1]) is type(b[1])
    x, y = a[0], b[0]
    if hasattr(x, 'isdisjoint') and not isinstance(x, (set, frozenset)):
        return list(x) == list(y)
    return x is y or (type(x) is type(y) and (callable(x) or S.freeze(x) == S.freeze(y)))


def look(p, keys, raw):
    what = 'at %r' % (keys,)
    need(len(p) == len(keys) and [x.key for x in p] == keys, '%s: the path has keys %r', what, [x.key for x in p])
    if not keys:
        need(p.exists and not p.is_null, 'the root does not exist')
        need(set(p.mapping()) == set(raw), 'the root maps %r', list(p.mapping()))
        for f in (p.primitive, p.sequence):
            _, e = run(f)
            need(isinstance(e, SourceError), 'the root can be read as something else: %r', e)
        return
    if keys[0] not in raw:
        need(p.exists is False and p.value is NONE, '%s: exists under an unknown mount point', what)
        need(p.is_null is False, '%s: is null', what)
        return
    q = raw[keys[0]]().path()
    for k in keys[1:]:
        q.append(k)
    for n, f in (('value', lambda x: x.value), ('exists', lambda x: x.exists), ('is_null', lambda x: x.is_null), (
            'sequence', lambda x: x.sequence()), ('mapping', lambda x: x.mapping()), ('primitive', lambda x: x.primitive()), (
            'int', lambda x: x.primitive(int)), ('str', lambda x: x.primitive(str))):
        a, b = run(f, p), run(f, q)
        need(same(a, b), '%s: %s is %r, the mounted source says %r', what, n, a, b)
