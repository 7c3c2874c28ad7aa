"""Documents, keys and an independent lookup for native, JSON and configuration sources."""
import json
import collections
from lib import need, same, bad, run
import pilo
from pilo import NONE
from pilo.source import DefaultSource, JsonSource, ConfigSource, SourceError


class Thing(object):
    """A native container with attributes."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Thing(%r)' % (self.__dict__,)


class Seq(collections.abc.Sequence if hasattr(collections, 'abc') else object):
    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def __repr__(self):
        return 'Seq(%r)' % (self.items,)


class MapC(collections.abc.Mapping if hasattr(collections, 'abc') else object):
    def __init__(self, d):
        self._entries = d

    def __len__(self):
        return len(self._entries)

    def __iter__(self):
        return iter(self._entries)

    def __getitem__(self, k):
        return self._entries[k]

    def __repr__(self):
        return 'MapC(%r)' % (self._entries,)


class Both(MapC):
    """A mapping that has attributes too."""

    def __init__(self, d, attrs):
        self._entries = d
        self.__dict__.update(attrs)

    def __repr__(self):
        return 'Both(%r)' % (self.__dict__,)


class Fn(object):
    """A callable that answers the same each time."""

    def __init__(self, v):
        self.v = v

    def __call__(self):
        return self.v

    def __repr__(self):
        return 'Fn(%r)' % (self.v,)


KEYS = ['a', 'b', 'c', 'd', 'a.b', 'b.c', 'a.b.c', 'items', 'keys', 'real', 'upper', 'x', '', 'a()', 'b()', 'a.b()', 'b.c.d', '0', 'a.0']
PRIMS = [None, True, False, 0, 1, -1, 2, 1.5, 0.0, '', 'a', 'x', '0', 'false', 'T', '12', '1.5', 'a.b']


def gen_doc(rng, depth, json_only=False):
    r = rng.random()
    if depth <= 0 or r < 0.25:
        v = rng.choice(PRIMS)
        if not json_only and rng.random() < .15:
            return {'fn': gen_doc(rng, 0)}
        return {'prim': v}
    n = rng.randint(0, 4)
    if r < 0.65:
        return {'dict': [[rng.choice(KEYS[:12] if json_only else KEYS), gen_doc(rng, depth - 1, json_only)] for _ in range(n)],
                'ikeys': [] if json_only else [[rng.randint(-1, 2), gen_doc(rng, 0)] for _ in range(rng.randint(0, 1))],
                'attrs': [] if json_only or rng.random() < .8 else [[rng.choice(KEYS[:6]), gen_doc(rng, depth - 1)] for _ in range(rng.randint(1, 3))],
                'cls': '' if json_only else rng.choice(['', '', 'map'])}
    if r < 0.85 or json_only:
        return {'list': [gen_doc(rng, depth - 1, json_only) for _ in range(n)],
                'cls': '' if json_only else rng.choice(['', '', 'tuple', 'seq'])}
    return {'obj': [[rng.choice(['a', 'b', 'c', 'd', 'x']), gen_doc(rng, depth - 1)] for _ in range(n)]}


def build(d):
    if 'prim' in d:
        return d['prim']
    if 'fn' in d:
        return Fn(build(d['fn']))
    if 'dict' in d:
        out = {}
        for k, v in d['dict'] + d['ikeys']:
            out[k] = build(v)
        if d.get('attrs'):
            return Both(out, dict((k, build(v)) for k, v in d['attrs']))
        return MapC(out) if d.get('cls') == 'map' else out
    if 'list' in d:
        items = [build(v) for v in d['list']]
        return {'': list, 'tuple': tuple, 'seq': Seq}[d['cls']](items)
    return Thing(**dict((k, build(v)) for k, v in d['obj']))


def freeze(v, depth=0):
    """A comparable snapshot of a document."""
    if isinstance(v, dict):
        return ('d', tuple((k, freeze(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(x) for x in v))
    if isinstance(v, Seq):
        return ('seq', freeze(v.items))
    if isinstance(v, Both):
        return ('both', freeze(v.__dict__))
    if isinstance(v, MapC):
        return ('map', freeze(v._entries))
    if isinstance(v, Thing):
        return ('t', freeze(v.__dict__))
    if isinstance(v, Fn):
        return ('f', freeze(v.v))
    return (type(v).__name__, repr(v))


# ------------------------------------------------------------ the oracle
class Gone(Exception):
    pass


def item(c, k):
    try:
        return c[k]
    except (IndexError, KeyError, TypeError):
        raise Gone()


def native_step(c, k, first, aliases, calls=True):
    """The value key k names in container c."""
    if isinstance(k, str) and calls and k.endswith('()'):
        f = native_step(c, k[:-2], first, aliases)
        return f()

    def plain(c, k, first):
        try:
            return item(c, k)
        except Gone:
            pass
        if first and aliases and k in aliases:
            try:
                return item(c, aliases[k])
            except Gone:
                pass
        if isinstance(k, str):
            try:
                return getattr(c, k)
            except (AttributeError, TypeError):
                pass
        raise Gone()
    try:
        return plain(c, k, first)
    except Gone:
        if not isinstance(k, str):
            raise
    for n, atom in enumerate(k.split('.')):
        c = plain(c, atom, first and n == 0)
    return c


def lookup(kind, root, keys, aliases=None, ignores=()):
    v = root
    for n, k in enumerate(keys):
        if kind == 'native':
            if [x for x in keys[:n + 1]] in [list(p.split('.')) for p in ignores]:
                raise Gone()
            v = native_step(v, k, n == 0, aliases)
        elif kind == 'json':
            if isinstance(k, str) and '.' in k:
                for atom in k.split('.'):
                    v = item(v, atom)
            else:
                v = item(v, k)
        else:
            raise NotImplementedError
    return v


def gen_case(rng, ignores=True):
    kind = rng.choice(['native', 'native', 'json'])
    doc = gen_doc(rng, rng.randint(1, 4), kind == 'json')
    aliases = None
    ig = []
    if kind == 'native' and rng.random() < .4:
        aliases = [[rng.choice(['a', 'b', 'x', 'c', 'keys', 'items', 'count', 'a.b']), rng.choice([0, 1, 2, 'a', 'b', 'd'])] for _ in range(rng.randint(1, 3))]
    if ignores and kind == 'native' and rng.random() < .3:
        ig = [rng.choice(['a', 'b', 'a.b', 'c', 'a.b.c', 'x', 'b.a']) for _ in range(rng.randint(1, 2))]
    ops = []
    for _ in range(rng.randint(1, 12)):
        r = rng.random()
        key = pick_key(rng, doc)
        if r < .5:
            ops.append(['append', key])
        elif r < .62:
            ops.append(['pop'])
        elif r < .7:
            ops.append(['set', key])
        elif r < .75:
            ops.append(['del'])
        elif r < .8:
            ops.append(['path', rng.random()])
        if rng.random() < .5:
            ops.append(['read', rng.choice(['value', 'exists', 'is_null'])])
    return {'kind': kind, 'doc': doc, 'aliases': aliases, 'ignores': ig, 'ops': ops}


def pick_key(rng, doc):
    """Mostly keys that are there."""
    d = doc
    for _ in range(rng.randint(0, 3)):
        sub = [v for k, v in d.get('dict', [])] + d.get('list', []) + [v for k, v in d.get('obj', [])] + [v for k, v in d.get('attrs', [])]
        if not sub:
            break
        d = rng.choice(sub)
    ks = [k for k, v in d.get('dict', [])] + [k for k, v in d.get('obj', [])] + [k for k, v in d.get('attrs', [])] + list(range(len(d.get('list', []))))
    if ks and rng.random() < .75:
        return rng.choice(ks)
    return rng.choice(KEYS + [0, 1, 2, -1])


def valid(v):
    return True


def same_value(got, exp, msg, *a):
    """Identity for containers; exact equality otherwise (bound methods compare by ==)."""
    if got is exp:
        return
    if type(got) is type(exp) and not isinstance(exp, (dict, list, tuple, Thing, Seq, MapC, Fn)) and got == exp:
        return
    bad('%s: got %r, expected %r' % (msg % a if a else msg, got, exp))


def play(case):
    doc = build(case['doc'])
    kind = case['kind']
    aliases = dict((k, v) for k, v in case['aliases']) if case['aliases'] else None
    if kind == 'json':
        src = JsonSource(json.dumps(doc))
        doc = src.data
    else:
        src = DefaultSource(doc, aliases=aliases, ignores=case['ignores'] or None)
    before = freeze(doc)
    p = src.path()
    keys = []
    seen = []
    opened = [(p, keys)]
    for n, op in enumerate(case['ops'] + [['read', 'value'], ['read', 'exists'], ['read', 'is_null'], ['read', 'value']]):
        w = 'after %s' % (seen,)
        if op[0] == 'append':
            p.append(op[1])
            keys.append(op[1])
        elif op[0] == 'pop' and keys:
            p.pop()
            keys.pop()
        elif op[0] == 'del' and keys:
            del p[-1]
            keys.pop()
        elif op[0] == 'set' and keys:
            p[-1] = op[1]
            keys[-1] = op[1]
        elif op[0] == 'path':
            # another path of the same source: one opened before, or a new one
            i = int(op[1] * (len(opened) + 1))
            if i == len(opened):
                opened.append((src.path(), []))
            p, keys = opened[i]
        elif op[0] == 'read':
            try:
                exp = lookup(kind, doc, keys, aliases, case['ignores'])
                there = exp is not NONE
            except Gone:
                exp, there = NONE, False
            except TypeError:
                # what the keys name is called but is not callable: not a lookup
                return
            got = getattr(p, op[1])
            if op[1] == 'value':
                same_value(got, exp, 'value at keys %r of %r %s', keys, doc, w)
            elif op[1] == 'exists':
                same(got, there, 'exists at keys %r of %r %s', keys, doc, w)
            else:
                same(got, exp is None, 'is_null at keys %r of %r %s', keys, doc, w)
        seen.append(op)
        same([x.key for x in p], keys, 'keys %s', seen)
        same(len(p), len(keys), 'len')
    same(freeze(doc), before, 'the document changed')


CFG = """[main]
name = x y "z w"
opt = 12
flag = TRUE
multi = one
    two

      three
sub[a] = 1
sub[b.c] = text
other[k-1] = v
empty =
[second]
name = q
sub[z] = 0
"""
CFG_KEYS = ['main', 'second', 'name', 'opt', 'flag', 'multi', 'sub', 'a', 'b.c', 'other', 'k-1', 'empty', 'nope', 'd1', 0, 1, 2, 'z', 'sub[a]']
