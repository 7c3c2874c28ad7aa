"""C24 on the real code."""
import re
from lib import need, same, run
from model import enc, dec
import pilo
from pilo import ctx, NONE
from pilo import fields as pf

RULE = 'constant fields (new, attached, with hooks), captured groups, context variables and formatted texts over documents, contexts and ' \
       'forms; non-trivial: distinct case'
VALUES = [0, '', 'x', 5, None, 1.5, True, 'red', [1], {'a': 1}]
PATTERNS = ['a', 'a(b)', r'(?P<a>\w)(?P<n>\d)?', r'(\w)(\d)?', '', '(b)?a', '(?P<n>x)|(y)', r'(?P<a>.*)', '(?=a)(?P<n>)', r'(?P<n>\d+)-(?P<a>\d+)']
TEXTS = ['a', 'ab', 'x', 'y', 'xab', 'a1', 'a1b', '1-2', '', 'b', 'ba', '12', None, 5, [], True]
NAMES = ['color', 'size', 'deep']
FORMATS = [('{x}', {'x': 'i'}), ('/my/{x}', {'x': 'i'}), ('{x}-{y}', {'x': 'i', 'y': 's'}), ('{x}{x}', {'x': 's'}), ('plain', {}),
           ('{y}/{x}', {'x': 'n.z', 'y': 'i'}), ('{x}', {'x': 'n.z'}), ('{x!r:>5}', {'x': 's'}), ('{x}', {'x': 'nope'}), ('{x}', {'x': 'n.nope'}),
           ('{{}}{x}', {'x': 'dv'}), ('plain', {'x': 'i'}), ('{x}', {'x': 'n.m.w'}),
           ('{x}.{y}', {'x': 'n.m.w', 'y': 'n.z'}), ('{x}', {'x': 'n.m.nope'})]


def cases(rng):
    r = rng.random()
    if r < .2:
        return {'do': 'constant', 'value': enc(rng.choice(VALUES)), 'data': enc(rng.choice([{}, {'a': 1}, {'a': None}, {'a': 'x', 'k': 2}])),
                'attached': rng.choice([0, 1, 2]), 'cls': rng.choice(['Field', 'Field', 'String', 'Integer']), 'other': rng.choice(['munge', 'compute', '', ''])}
    if r < .5:
        return {'do': 'capture', 'pattern': rng.choice(PATTERNS), 'compiled': rng.random() < .5, 'name': rng.choice([None, None, 'n', 'a', 2, 'zz']),
                'text': rng.choice(TEXTS), 'present': rng.random() < .9, 'default': rng.choice([None, None, 'dflt']), 'late': rng.random() < .3}
    if r < .75:
        return {'do': 'context', 'binds': [[rng.choice(NAMES), enc(rng.choice(VALUES))] for _ in range(rng.randint(0, 3))],
                'src': rng.choice([None] + NAMES + ['deep.a']), 'cls': rng.choice(['Field', 'String', 'Integer']), 'data': rng.choice([{}, {'color': 'blue', 'a': 7}])}
    return {'do': 'format', 'which': rng.randrange(len(FORMATS)), 'first': rng.random() < .5,
            'data': rng.choice([{}, {'i': 1}, {'i': 'x', 's': 't'}, {'i': 3, 's': 'u', 'n': {'z': 4}}, {'i': 1, 's': '', 'n': {}}, {'n': {'z': 'bad'}, 'i': 2},
                                {'i': 0, 's': 'v', 'n': {'z': 0}}, {'n': {'z': 1, 'm': {'w': 'q'}}}, {'n': {'z': 1, 'm': {}}}])}


FIXED = [{'do': 'constant', 'value': enc(v), 'data': d, 'attached': a, 'cls': 'Field', 'other': o} for v in VALUES for d in ({}, {'a': 1}) for a in (0, 1, 2)
         for o in ('', 'munge', 'compute')] + \
    [{'do': 'capture', 'pattern': p, 'compiled': i % 2, 'name': n, 'text': t, 'present': True, 'default': d, 'late': False}
     for i, p in enumerate(PATTERNS) for n in (None, 'n', 2) for t in TEXTS for d in (None, 'dflt')] + \
    [{'do': 'context', 'binds': [[n, enc(v)]], 'src': s, 'cls': c, 'data': {'color': 'blue', 'a': 7}}
     for n in ('color', 'size', 'deep') for v in VALUES for s in (None, 'color', 'deep.a') for c in ('Field', 'String', 'Integer')] + \
    [{'do': 'format', 'which': w, 'first': f, 'data': d} for w in range(len(FORMATS)) for f in (True, False)
     for d in ({}, {'i': 1}, {'i': 3, 's': 'u', 'n': {'z': 4}}, {'i': 1, 's': '', 'n': {}}, {'i': 0, 's': 'v', 'n': {'z': 0}}, {'n': {'z': 1, 'm': {'w': 'q'}}}, {'n': {'z': 1, 'm': {}}})]


def mapped(cls, data, **kw):
    f = cls()
    n = len(getattr(ctx, 'stack', ()))
    got, e = run(f.map, pilo.DefaultSource(data), **kw)
    need(len(getattr(ctx, 'stack', ())) == n, 'the context is left with %d scopes instead of %d', len(getattr(ctx, 'stack', ())), n)
    need(e is None, 'mapping raised %r', e)
    return f, got


def kinds(errors):
    return [(type(e).__name__, e.field.name) for e in errors]


def constant(c):
    v = dec(c['value'])
    klass = getattr(pf, c['cls'])
    if c['cls'] == 'String' and not (v is None or isinstance(v, str)) or c['cls'] == 'Integer' and not (v is None or isinstance(v, int)):
        return
    f = klass(default='d')
    other = c['other'] == 'munge'
    computes = c['other'] == 'compute' and c['attached'] != 0
    own = 'own' if c['cls'] == 'String' else 77
    if other:
        f.munge(lambda self, value: ('munged', value))
    if computes:
        f.compute(lambda self: own)
    if c['attached'] == 0:
        g = f.constant(v)
        need(g is f, 'constant of a new field gives another one')
        cls = type('F', (pilo.Form,), {'a': g})
        want = {'a': v}
    else:
        base = type('B', (pilo.Form,), {'a': f})
        before = dict(vars(f))
        g = base.a.constant(v)
        need(g is not f and type(g) is klass, 'constant of a field of a form gives %r', g)
        need(base.a is f and dict(vars(f)) == before and bool(f.compute) == computes and base.fields == [f], 'constant changed the field of the form')
        if c['attached'] == 1:
            cls = type('F', (base,), {'a': g})
            want = {'a': v}
        else:
            cls = type('F', (pilo.Form,), {'zz': g})
            want = {'zz': v}
        need(g.parent is cls, 'the constant field belongs to %r', g.parent)
        b, errs = mapped(base, {'a': 'x'} if c['cls'] == 'String' else {'a': 3})
        raw = 'x' if c['cls'] == 'String' else 3
        need(not errs and dict(b) == {'a': ('munged', raw) if other else own if computes else raw}, 'the form of the field maps to %r %r', dict(b), errs)
    if other:
        want = dict((k, ('munged', x)) for k, x in want.items())
    form, errs = mapped(cls, dec(c['data']))
    need(not errs, 'a constant field has errors %r', errs)
    same(dict(form), want, 'constant %r over %r', v, c['data'])


def capture(c):
    kw = {} if c['default'] is None else {'default': c['default']}
    f = pf.String(**kw)
    p = re.compile(c['pattern']) if c['compiled'] else c['pattern']
    args = [p] if c['name'] is None else [p, c['name']]
    if c['late']:
        cls = type('F', (pilo.Form,), {'a': f})
        need(cls.a.capture(*args) is f, 'capture gives back another field')
    else:
        need(f.capture(*args) is f, 'capture gives back another field')
        cls = type('F', (pilo.Form,), {'a': f})
    t = c['text']
    form, errs = mapped(cls, {'a': t} if c['present'] else {})
    want, fault = NONE, None
    if not c['present']:
        pass
    elif t is None:
        want = None
    elif not isinstance(t, str):
        fault = 'Invalid'
    else:
        m = re.match(c['pattern'], t)
        if m:
            for g in (c['name'] or 'a', 1):
                if g in m.re.groupindex or isinstance(g, int) and g <= m.re.groups:
                    want = m.group(g)
                    break
    if want is NONE and not fault:
        want, fault = (c['default'], None) if c['default'] is not None else (NONE, 'Missing')
    same(kinds(errs), [(fault, 'a')] if fault else [], 'errors of capturing %r by %r', t, args)
    same(dict(form), {} if fault else {'a': want}, 'capturing %r by %r', t, args)


def context(c):
    klass = getattr(pf, c['cls'])
    f = klass(*([] if c['src'] is None else [c['src']]))
    need(f.from_context() is f, 'from_context gives back another field')
    cls = type('F', (pilo.Form,), {'color': f, 'a': pf.Field(optional=True)})
    closes, have = [], {}
    try:
        for n, v in c['binds']:
            s = ctx(**{n: dec(v)})
            s.__enter__()
            closes.append(s)
            have[n] = dec(v)
        form, errs = mapped(cls, c['data'])
    finally:
        for s in reversed(closes):
            s.__exit__(None, None, None)
    v = have
    for k in (c['src'] or 'color').split('.'):
        if not isinstance(v, dict) or k not in v:
            if isinstance(v, dict) or v is None or isinstance(v, (int, float, str, list)):
                v = NONE
                break
        v = v[k]
    fault = None
    if v is NONE:
        fault = 'Missing'
    elif v is None or c['cls'] == 'Field':
        pass
    elif c['cls'] == 'String':
        fault = None if isinstance(v, str) else 'Invalid'
    else:
        if isinstance(v, int) and not isinstance(v, bool):
            pass
        else:
            fault = 'Invalid'
    want = {} if fault else {'color': v}
    if 'a' in c['data']:
        want['a'] = c['data']['a']
    same(kinds(errs), [(fault, 'color')] if fault else [], 'errors of %r from %r', c['src'], have)
    same(dict(form), want, 'field %r from the context %r', c['src'], have)


def format_(c):
    fmt, names = FORMATS[c['which']]
    deep = type('M', (pilo.Form,), {'w': pf.String(default='dw')})
    inner = type('N', (pilo.Form,), {'z': pf.Integer(), 'm': pf.SubForm(deep, default=None)})
    f = pf.String()
    need(f.format(fmt, **names) is f, 'format gives back another field')
    i, s, n, dv = pf.Integer(), pf.String(), pf.SubForm(inner), pf.Field(default=9)
    rest = [('i', i), ('s', s), ('n', n), ('dv', dv)]
    ns = dict(rest)
    if c['first']:
        link = pf.String().format(fmt, **names)
        for x in (link, i, s, n, dv):
            x._count = pf.Integer()._count
    else:
        link = f
        link._count = pf.Integer()._count
    ns['link'] = link
    cls = type('F', (pilo.Form,), ns)
    form, errs = mapped(cls, c['data'])
    plain = type('G', (pilo.Form,), dict((k, x) for k, x in (('i', pf.Integer()), ('s', pf.String()), ('n', pf.SubForm(inner)), ('dv', pf.Field(default=9)))))
    other, _ = mapped(plain, c['data'])
    values, ok = {}, True
    for k, at in names.items():
        v = other
        for part in at.split('.'):
            if not isinstance(v, dict) or part not in v:
                ok = False
                break
            v = v[part]
        values[k] = v
    own = [e for e in errs if e.field is link]
    if ok:
        need(not own, 'formatting gave %r', own)
        same(form.get('link', NONE), fmt.format(**values), 'format %r of %r', fmt, names)
    else:
        need(len(own) == 1 and type(own[0]).__name__ == 'Invalid', 'formatting %r of %r gave %r', fmt, names, errs)
        need('link' not in form, 'formatting what cannot be read gave %r', form.get('link'))
    same(sorted((k, repr(v)) for k, v in form.items() if k != 'link'), sorted((k, repr(v)) for k, v in other.items()), 'the other fields beside a formatted one')


def check(case):
    {'constant': constant, 'capture': capture, 'context': context, 'format': format_}[case['do']](case)
