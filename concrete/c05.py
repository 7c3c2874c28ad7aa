"""C05 on the real code: every source, type and a wide set of values, against the statement."""
import json
import math
import random
from lib import need, same, run, bad
from pilo.source import DefaultSource, JsonSource, ConfigSource, SourceError
import cfgs

RULE = 'every (source, requested type or subclass, order of requests) with boundary and random values, in one document each; ' \
       'non-trivial: distinct (source, type sequence, value)'
TXT = ['0', '1', 'f', 'F', 't', 'T', 'false', 'False', 'FALSE', 'true', 'TRUE', 'tRuE', 'yes', 'no', '', ' ', '2', '-1', '+3', ' 4 ', '1_0',
       '1.0', '1.5', '1e3', 'nan', 'inf', '-inf', 'Infinity', '0x10', '007', 'abc', '\u0663', '9' * 400, '1' * 25, '1e400', '-0', 'on',
       'off', 'tr', 'ft', 'none', 'null', '1.', '.5', '--1', '1 2']
NUM = [0, 1, -1, 2, 255, 10 ** 25, -10 ** 25, 10 ** 400, 2 ** 53 + 1, 0.0, -0.0, 1.0, -1.0, 1.5, 0.1, 1e300, 1e22, 123456789.0, -2.5]
WEIRD = [float('inf'), float('-inf'), float('nan')]
OTHER = [None, True, False, [], [1], {}, {'a': 1}]
NAMES = ['str', 'int', 'float', 'bool', 'auto']
BASE = {'str': str, 'int': int, 'float': float, 'bool': bool, 'auto': None}


class SStr(str):
    pass


class SInt(int):
    pass


class SFloat(float):
    pass


SUB = {'str': SStr, 'int': SInt, 'float': SFloat, 'bool': type('IntLike', (int,), {})}


def enc(v):
    if isinstance(v, float) and (math.isinf(v) or math.isnan(v)):
        return {'f': repr(v)}
    return {'v': v}


def dec(d):
    return float(d['f']) if 'f' in d else d['v']


def want(kind, typ, v):
    """(value,) or None for an error."""
    strict, js = kind == 'json-strict', kind.startswith('json')
    if typ == 'auto':
        return (v,)
    isint = isinstance(v, int) and not isinstance(v, bool)
    if typ == 'str':
        if isinstance(v, str):
            return (v,)
        return (str(v),) if js and not strict else None
    if typ == 'int':
        if isint:
            return (v,)
        if strict:
            return None
        if isinstance(v, float):
            return (int(v),) if v == v and abs(v) != float('inf') and v == math.floor(v) else None
        if isinstance(v, str):
            return parse(int, v)
        return None
    if typ == 'float':
        if isinstance(v, float):
            return (v,)
        if isinstance(v, int):
            try:
                return (float(v),)
            except OverflowError:
                return None
        if isinstance(v, str) and not strict:
            return parse(float, v)
        return None
    if isinstance(v, bool):
        return (v,)
    if isint and not strict:
        return (v != 0,)
    if isinstance(v, str) and not js:
        if v.lower() in ('0', 'f', 'false'):
            return (False,)
        if v.lower() in ('1', 't', 'true'):
            return (True,)
    return None


def parse(f, v):
    try:
        return (f(v),)
    except ValueError:
        return None


def make(kind, v):
    if kind == 'native':
        return DefaultSource({'k': v})
    if kind == 'config':
        return ConfigSource('[s]\nother = 1\n', section='s', defaults={'k': v})
    return JsonSource(json.dumps({'k': v}), strict=kind == 'json-strict')


def values(kind):
    vs = TXT + NUM + WEIRD + OTHER
    return vs


KINDS = ['native', 'json', 'json-strict', 'config']
FIXED = [{'kind': k, 'types': [[t, s]], 'value': enc(v)} for k in KINDS for t in NAMES for v in TXT + NUM + WEIRD + OTHER
         for s in ([False] if t in ('auto', 'bool') else [False, True])]


def cases(rng):
    k = rng.choice(KINDS)
    r = rng.random()
    if r < .4:
        v = rng.choice(TXT + NUM + WEIRD + OTHER)
    elif r < .6:
        v = rng.choice([rng.randint(-10 ** 6, 10 ** 6), rng.randint(-10 ** 20, 10 ** 20)])
    elif r < .8:
        v = rng.choice([rng.uniform(-10, 10), float(rng.randint(-10 ** 9, 10 ** 9)), rng.uniform(-1e30, 1e30)])
    else:
        v = ''.join(rng.choice('01tfTF.eE+- axnul') for _ in range(rng.randint(0, 5)))
    seq = []
    for _ in range(rng.randint(1, 4)):
        t = rng.choice(NAMES)
        seq.append([t, t not in ('auto', 'bool') and rng.random() < .4] + ([rng.choice(NAMES[:4])] if rng.random() < .2 else []))
    return {'kind': k, 'types': seq, 'value': enc(v), 'fresh': rng.random() < .5, 'odd': rng.random() < .2}


def check(case):
    v = dec(case['value'])
    src = make(case['kind'], v)
    p = src.path()
    p.append('k')
    fresh = {}
    for i, spec in enumerate(case['types'] * 2):
        t, sub = spec[0], spec[1]
        cls = BASE[t]
        if sub:
            cls = SUB[t]
            if case.get('fresh'):
                cls = fresh.setdefault(t, type('Fresh', (cls,), {}))
        args = [cls] + [BASE[x] for x in spec[2:]]
        if t == 'auto' and i % 2:
            args = []
        elif t != 'auto' and case.get('odd'):
            # a type which no source knows is passed over, and stays unknown
            odd = type('Odd', (object,), {})
            args.insert(0, odd)
        w = want(case['kind'], t, v)
        r, e = run(p.primitive, *args)
        if args and args[0] not in BASE.values() and case.get('odd') and t != 'auto':
            _, e2 = run(p.primitive, args[0])
            need(isinstance(e2, ValueError), 'a type which is none of these gave %r', e2)
        what = '%s source asked for %s%s of %r (request %d)' % (case['kind'], t, ' subclass' if sub else '', v if not isinstance(
            v, str) else v[:40], i)
        if w is None:
            need(e is not None, '%s: got %r, expected a SourceError', what, r)
            need(isinstance(e, SourceError), '%s: raised %s: %s', what, type(e).__name__, e)
        else:
            need(e is None, '%s: raised %s %s', what, type(e).__name__, e)
            if t == 'auto':
                need(type(r) is type(v) and (r == v or r != r), '%s: got %r', what, r)
            else:
                same(r, w[0], what)
                if isinstance(r, float) and r == 0:
                    same(math.copysign(1, r), math.copysign(1, w[0]), what + ' sign')
