"""C22 on the real code."""
import datetime
import decimal
import json
import os
import types
import uuid
from lib import need, run
from model import Built, map_case, dec, enc, source
from gens import G
import pilo
from pilo import fields as pf

RULE = 'date, time, datetime, UUID, decimal fields with every kind of format setting over texts that fit, nearly fit and do not fit, typed ' \
       'values and other values, from native and JSON documents; integer and float patterns; code by import and inline; non-trivial: ' \
       'distinct (field, value)'
U = 'c9bf9e57-1685-4c89-bafb-ff5af830be8a'
UTEXT = [U, U.upper(), U.replace('-', ''), '{%s}' % U, 'urn:uuid:' + U, U[:-1], U + '0', 'x' + U[1:], '', 'nonsense', 5, [], {}, 1.5, None, True]
DTEXT = ['1', '1.50', '-0', '1e3', 'NaN', 'Infinity', '', 'x', '1,5', ' 2 ', '1_0', '--1', '\u0663', 0, -3, 1.5, True, [], {}, None, '1.2.3',
         0.1, 2 ** 70, '1.' + '1' * 40, '9' * 45, '1E+999', '1E-999', 'sNaN', '-Infinity']
DECIMALS = [decimal.Decimal(x) for x in ('1.5', '1.50', '-0', '1.' + '1' * 40, '9' * 45, '1E+999', 'NaN', 'Infinity')] + [1j]
PATS = [r'\d+', r'\d+\.\d+', r'[a-z]+', r'-?\d+', r'\d*', r'x', r'\d+e\d', r'.+', r'1(2)', r'(\d)(\d)?', r'(?P<n>\d)2', r'(x)?1', r'(-)?(\d+)(\.\d)?']
PTEXT = ['12', '12abc', '1.5', '1.5x', 'abc', '', '-3', '1e5', 'x1', ' 5', 7, 1.5, None, '1.5.2', [], '\u0663']
CODE = ['os:path', 'x = 1\n', '\n', '\nx = 1', 'x\n', 'os:path\n', '\nos:path', 'os:path\n.join', 'x = 1\r\n', 'x = 1\r', 'json:dumps.__code__.co_name', 'os:path.join.__name__.__class__.__name__', 'os:path.join.__name__.zz', 'os:.path', 'os:path.', ' os:path',
        'json:dumps', 'json:nope', 'nomodule_zz:x', 'plain', '', ':x', 'os:path.join', 'os:path.zz', 'os.path:join', 'xml.dom.minidom:Node.ELEMENT_NODE', 'os.path:path', 'pilo.zz:x', 'pilo.source:json.JsonSource',
        'a = 1\nb = a + 1\n',
        'def f():\n    return 3\n', 'syntax error here\n(\n', 'raise ValueError(1)\n', '1/0\n', '!!', 'import nothing_zz\n', 5, None, [1], {'a': 1}, True]


def one(f, v, kind):
    return {'form': {'name': 'F', 'fields': [['a', f]]}, 'kind': kind, 'data': {'a': enc(v)}}


def cases(rng):
    g = G(rng)
    r = rng.random()
    kind = g.pick('native', 'native', 'json')
    if r < .6:
        f = g.temporal(ranges=False)
        v = g.temporal_value(f, .25)
    elif r < .7:
        f = g.base('uuid')
        v = rng.choice(UTEXT + [uuid.UUID(U)])
    elif r < .8:
        f = g.base('decimal')
        v = rng.choice(DTEXT + DECIMALS)
    else:
        f = g.base(g.pick('integer', 'float'), calls=[['pattern', [rng.choice(PATS)]]])
        v = rng.choice(PTEXT)
    if kind == 'json' and not isinstance(v, (str, int, float, bool, list, dict, type(None))):
        v = str(v)
    c = one(f, v, kind)
    if v is not None and not isinstance(v, (list, dict)):
        c['union'] = g.p(.2)
    return c


def fixed():
    out = []
    for kind in ('native', 'json'):
        out += [one({'id': 1, 'k': 'uuid'}, v, kind) for v in UTEXT]
        out += [one({'id': 1, 'k': 'decimal'}, v, kind) for v in DTEXT + (DECIMALS if kind == 'native' else [])]
        for k in ('integer', 'float'):
            out += [one({'id': 1, 'k': k, 'calls': [['pattern', [p]]]}, v, kind) for p in PATS for v in PTEXT]
        for k, fms in (('date', [None, 'iso8601', '%Y-%m-%d', ['%d/%m/%Y', 'iso8601'], ['iso8601', '%d/%m/%Y'], ['%Y', '%d/%m/%Y', '%Y-%m-%d'], ['%Y', '%d/%m/%Y', '%Y'], ['iso8601', '%d/%m/%Y', 'iso8601'], []]),
                       ('datetime', [None, 'iso8601', '%Y-%m-%d', '%Y-%m-%d %H:%M', '']), ('time', [None, '%H:%M', '%H:%M:%S'])):
            for fm in fms:
                f = {'id': 1, 'k': k}
                if fm is not None:
                    f['format'] = fm
                if k == 'datetime' and fm == '':
                    continue
                out += [one(f, v, kind) for v in G.DATETEXT + [5, None, [], {}]]
        out += [{'code': v, 'kind': kind} for v in CODE]
    out += [one({'id': 1, 'k': 'uuid'}, uuid.UUID(U), 'native'), one({'id': 1, 'k': 'decimal'}, decimal.Decimal('2.50'), 'native'), one({'id': 1, 'k': 'decimal'}, 1 + 2j, 'native'),
            one({'id': 1, 'k': 'date'}, datetime.date(2020, 1, 2), 'native'), one({'id': 1, 'k': 'time'}, datetime.time(1, 2), 'native'),
            one({'id': 1, 'k': 'datetime'}, datetime.datetime(2020, 1, 2), 'native')]
    # the same through a union
    out += [dict(c, union=True) for c in out if 'form' in c and c['data']['a'] is not None and not (
        isinstance(c['data']['a'], list) or isinstance(c['data']['a'], dict) and '$' not in c['data']['a'])][::3]
    return out


FIXED = fixed()


def check(case):
    if 'code' not in case:
        map_case(case)
        return
    v = case['code']
    f = pf.Code()
    cls = type('F', (pilo.Form,), {'a': f})
    form = cls()
    got, e = run(form.map, source(case['kind'], {'a': v}))
    need(e is None, 'mapping code %r raised %r', v, e)
    if not isinstance(v, str):
        need(not got and form.get('a', 0) == v and type(form['a']) is type(v), 'code %r gave %r %r', v, dict(form), got)
        return
    want = None
    if '\n' in v:
        ns = {}
        try:
            exec(v, ns)
            want = dict((k, x) for k, x in ns.items() if not k.startswith('__'))
        except Exception:
            pass
    else:
        want = {'os:path': os.path, 'json:dumps': json.dumps, 'os:path.join': os.path.join, 'os.path:join': os.path.join,
                'xml.dom.minidom:Node.ELEMENT_NODE': 1, 'pilo.source:json.JsonSource': pilo.source.JsonSource,
                'json:dumps.__code__.co_name': 'dumps', 'os:path.join.__name__.__class__.__name__': 'str'}.get(v)
    if want is None:
        need(len(got) == 1 and type(got[0]).__name__ == 'Invalid' and 'a' not in form, 'bad code %r gave %r %r', v, dict(form), got)
    else:
        need(not got and 'a' in form, 'code %r gave errors %r', v, got)
        m = form['a']
        if '\n' in v:
            need(isinstance(m, types.ModuleType), 'inline code %r gave %r', v, m)
            have = dict((k, x) for k, x in vars(m).items() if not k.startswith('__'))
            need(set(have) == set(want), 'inline code %r defines %r', v, sorted(have))
            for k in want:
                need(have[k] == want[k] or callable(want[k]) and have[k]() == want[k](), 'inline code %r: %s', v, k)
        else:
            need(m is want or type(m) is str and m == want, 'code %r gave %r', v, m)
