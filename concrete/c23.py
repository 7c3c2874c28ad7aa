"""C23 on the real code."""
import pilo
from lib import need, run
from pilo import fields as pf
from pilo.fields import Hook

RULE = 'every hook of every field kind, functions with the required and with other argument lists, nested fields (list of list of ...), ' \
       'attached targets, repeated registration and calls; non-trivial: distinct (field, hook, function, nesting)'
FUNCS = {
    's': lambda ret, log: (lambda self: log.append((self,)) or ret),
    'sv': lambda ret, log: (lambda self, value: log.append((self, value)) or ret),
    'sp': lambda ret, log: (lambda self, path: log.append((self, path)) or ret),
    'sk': lambda ret, log: (lambda self, key: log.append((self, key)) or ret),
    'sx': lambda ret, log: (lambda self, x: ret),
    'v': lambda ret, log: (lambda value: ret),
    'none': lambda ret, log: (lambda: ret),
    'svd': lambda ret, log: (lambda self, value=None: ret),
    'star': lambda ret, log: (lambda self, *a: ret),
    'kw': lambda ret, log: (lambda self, value, **k: ret),
    'svx': lambda ret, log: (lambda self, value, x: ret),
    'kwonly': lambda ret, log: eval('lambda self, value, *, z=1: ret', {'ret': ret}),
}
NEED = {'compute': 's', 'resolve': 's', 'default': 's', 'parse': 'sp', 'munge': 'sv', 'filter': 'sv', 'validate': 'sv', 'key_filter': 'sk'}
KINDS = ['field', 'string', 'integer', 'list', 'dict', 'date', 'boolean', 'group', 'tuple']


def build(kind):
    if kind == 'list':
        return pf.List(pf.Integer())
    if kind == 'dict':
        return pf.Dict(pf.String(), pf.Integer())
    if kind == 'tuple':
        return pf.Tuple(pf.Integer(), pf.Integer())
    return {'field': pf.Field, 'string': pf.String, 'integer': pf.Integer, 'date': pf.Date, 'boolean': pf.Boolean, 'group': pf.Group}[kind]()


def fixed():
    out = []
    for k in KINDS:
        for h in NEED:
            if h == 'key_filter' and k != 'dict':
                continue
            if h == 'default' and k == 'group':
                continue
            for f in FUNCS:
                for nest in (0, 1, 2):
                    out.append({'kind': k, 'hook': h, 'func': f, 'nest': nest})
    return out


FIXED = fixed() + [{'scope': w, 'hook': h, 'depth': d} for w in ('field', 'element', 'capture') for d in (0, 1, 2) for h in
                   ('compute', 'default', 'parse', 'munge', 'filter', 'validate')]


def cases(rng):
    c = dict(rng.choice(FIXED))
    if 'scope' in c:
        return c
    c['attach'] = rng.choice([False, False, False, False, True, 'falsy'])
    c['again'] = rng.choice(sorted(FUNCS))
    c['ret'] = rng.choice([0, 1, None, 'x', [], False])
    c['in_form'] = rng.random() < .5
    c['nest'] = rng.choice([0, 1, 2, 3])
    return c


def in_scope(case):
    """Hooks of a form's fields, elements and capture field get the form being mapped."""
    log = []
    f = pf.Field()
    getattr(f, case['hook'])(FUNCS[NEED[case['hook']]](1, log))
    options = {}
    members, data = {}, {'v': 5}
    if case['scope'] == 'field':
        members['v'] = f
    elif case['scope'] == 'element':
        members['v'] = pf.List(f)
        data = {'v': [5]}
    else:
        options['unmapped'] = f
    if case['hook'] == 'default':
        if case['scope'] != 'field':
            return
        data = {}
    cls = type('Inner', (pilo.Form,), members)
    for i in range(case['depth']):
        cls = type('Outer%d' % i, (pilo.Form,), {'sub': pf.SubForm(cls).options(**options) if i == 0 else pf.SubForm(cls)})
        data = {'sub': data}
    form = cls()
    r, e = run(form.map, data, **(options if not case['depth'] else {}))
    need(e is None and not r, 'mapping with a %s hook of a %s gave %r', case['hook'], case['scope'], r if e is None else e)
    for i in range(case['depth']):
        form = form['sub']
    need(len(log) == 1 and log[0][0] is form, 'the %s hook of a %s of %r was called with %r', case['hook'], case['scope'], form, log)


class Falsy(object):
    """An object which is false (as an empty form is)."""

    def __len__(self):
        return 0


def check(case):
    if 'scope' in case:
        return in_scope(case)
    log = []
    ret = case.get('ret', 'answer')
    f = build(case['kind'])
    outer = f
    for i in range(case['nest']):
        outer = pf.List(outer) if i % 2 == 0 else pf.Dict(pf.String(), outer)
    if case.get('in_form'):
        type('G', (pilo.Form,), {'the_field': outer})
    h = getattr(f, case['hook'])
    need(not h and bool(h) is False, 'an unregistered hook is truthy')
    func = FUNCS[case['func']](ret, log)
    target = Falsy() if case.get('attach') == 'falsy' else object()
    if case.get('attach'):
        need(h.attach(target) is h, 'attach does not give back the hook')
    got, e = run(h, func)
    what = 'registering (%s) on %s of %s' % (case['func'], case['hook'], case['kind'])
    if case['func'] != NEED[case['hook']]:
        need(isinstance(e, TypeError), '%s gave %r instead of a TypeError', what, got if e is None else e)
        need(not h, '%s: the rejected function is registered', what)
        # and it can still be registered properly
        func = FUNCS[NEED[case['hook']]](ret, log)
        got, e = run(h, func)
    need(e is None, '%s raised %r', what, e)
    need(got is outer, '%s gave back %r instead of the outermost field', what, got)
    need(bool(h) is True, '%s: the hook is not truthy', what)
    for other in NEED:
        o = getattr(f, other, None)
        if isinstance(o, Hook) and o is not h:
            need(not o, '%s registered %s too', what, other)

    class F(pilo.Form):
        pass
    form = F()
    need(not log, '%s called the function', what)
    args = [] if NEED[case['hook']] == 's' else [case.get('ret', 5)]
    with pilo.ctx(form=form, errors=pf.CollectErrors()):
        for i in range(2):
            del log[:]
            r, e = run(h, *args)
            need(e is None and r is ret or r == ret, '%s: calling gave %r', what, r if e is None else e)
            need(len(log) == 1, '%s: called %d times', what, len(log))
            need(log[0][0] is (target if case.get('attach') else form) and list(log[0][1:]) == args, '%s: called with %r', what, log[0])
        if args:
            # a callable argument of a registered hook is just an argument, whatever its argument specification
            for arg in (len, str, (lambda value: value), FUNCS[NEED[case['hook']]](0, []), FUNCS['star'](0, []), log.append):
                del log[:]
                r, e = run(h, arg)
                need(e is None and len(log) == 1 and log[0][1] == arg, '%s: calling with a callable gave %r', what, r if e is None else e)
            del log[:]
            r, e = run(h, *args)
            need(e is None and len(log) == 1, '%s: called %d times after it was called with a callable', what, len(log))
