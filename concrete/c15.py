"""C15 on the real code."""
import pilo
from pilo import NONE
from lib import need, run
from model import Built, all_fields, dec, enc, show
from gens import G, NAMES

RULE = 'forms holding plain values, nested forms (to depth 3), lists mixing forms and values, and keys that are no fields, under filter ' \
       '(tags, inv), munge (functions that keep, change, drop, fill), copy and flatten; non-trivial: distinct (form, operation)'


def spec(g, depth):
    fields = []
    for n in NAMES[:g.r.randint(1, 4)]:
        f = g.base('field')
        if depth and g.p(.4 if depth < 3 else .6):
            f = g.base('sub', form=spec(g, depth - 1))
            if g.p(.4):
                f = g.base('list', field=f)
        if g.p(.6):
            f['tags'] = g.r.sample(['t', 'u', 'v'], g.r.randint(1, 2))
        fields.append([n, f])
    g.r.shuffle(fields)
    return g.form(fields)


def tree(g, s):
    vals = []
    for n, f in all_fields(s):
        if g.p(.2):
            continue
        sub = f['form'] if f['k'] == 'sub' else f['field']['form'] if f['k'] == 'list' else None
        if sub is None or g.p(.15):
            vals.append([n, ['v', g.pick(0, 1, '', 'x', None, [1, 2], [], {'k': 1}, False)]])
        elif f['k'] == 'sub':
            vals.append([n, ['form', sub['name'], tree(g, sub)]])
        else:
            vals.append([n, [g.pick('list', 'list', 'tuple'), [['form', sub['name'], tree(g, sub)] if g.p(.8) else ['v', g.pick(1, 'x')] for _ in range(g.r.randint(0, 3))]]])
    if g.p(.3):
        vals.append(['extra', ['v', 9]])
    return vals


OPS = [['copy'], ['flatten'], ['munge', 'same'], ['munge', 'mark'], ['munge', 'drop'], ['munge', 'fill'], ['munge', 'mixed']]


def cases(rng):
    g = G(rng)
    s = spec(g, rng.choice([0, 1, 1, 2, 2, 3, 5]))
    op = rng.choice(OPS) if g.p(.6) else ['filter', rng.sample(['t', 'u', 'v', 'w'], rng.randint(0, 2)), g.p(.4)]
    return {'form': s, 'values': tree(g, s), 'op': op}


FIXED = []


class T(object):
    """A form of the model: its spec and its items in order."""

    def __init__(self, spec, items):
        self.spec, self.items = spec, items


def specs(s, out):
    out[s['name']] = s
    for n, f in s['fields']:
        for x in (f, f.get('field') or {}):
            if x.get('k') == 'sub':
                specs(x['form'], out)
    return out


def real(b, sp, name, vals):
    form = b.classes[name]()
    for n, v in vals:
        dict.__setitem__(form, n, real_value(b, sp, v))
    return form


def real_value(b, sp, v):
    if v[0] == 'v':
        return dec(v[1])
    if v[0] == 'form':
        return real(b, sp, v[1], v[2])
    return (tuple if v[0] == 'tuple' else list)(real_value(b, sp, x) for x in v[1])


def model(sp, v):
    if v[0] == 'v':
        return dec(v[1])
    if v[0] == 'form':
        return T(sp[v[1]], [(n, model(sp, x)) for n, x in v[2]])
    return (tuple if v[0] == 'tuple' else list)(model(sp, x) for x in v[1])


def freeze(v):
    if isinstance(v, pilo.Form):
        return (type(v).__name__, id(v), tuple((k, freeze(x)) for k, x in sorted(v.items())))
    if isinstance(v, list):
        return ('list', id(v), tuple(freeze(x) for x in v))
    if isinstance(v, tuple):
        return ('tuple', id(v), tuple(freeze(x) for x in v))
    return (id(v), repr(v))


def func(op, sid, v):
    """The client's munge function (on either side)."""
    if op == 'same':
        return v
    if op == 'mark':
        return ('<%s>' % show(v)) if v is not NONE and not isinstance(v, (list, tuple, dict, T)) else v
    if op == 'drop':
        return NONE if sid % 2 else v
    if op == 'fill':
        return 'filled' if v is NONE else v
    return NONE if sid % 3 == 0 else 'new' if sid % 3 == 1 and not isinstance(v, (list, tuple, dict, T)) else v


def munge(f, t, log):
    items = []
    for n, s in all_fields(t.spec):
        have = dict(t.items)
        v = have.get(n, NONE)
        log.append((s['id'], n))
        v = f(s, v)
        if v is NONE:
            continue
        if isinstance(v, T):
            v = munge(f, v, log)
        elif isinstance(v, (list, tuple)):
            v = [munge(f, x, log) if isinstance(x, T) else x for x in v]
        items.append((n, v))
    return T(t.spec, items)


def agree(r, m):
    if isinstance(m, T):
        return isinstance(r, pilo.Form) and type(r).__name__ == m.spec['name'] and set(r) == set(n for n, v in m.items) and all(
            agree(r[n], v) for n, v in m.items)
    if isinstance(m, (list, tuple)):
        # (whether what was a tuple is one still is left open)
        return isinstance(r, (list, tuple)) and len(r) == len(m) and all(agree(a, b) for a, b in zip(r, m))
    return type(r) is type(m) and r == m


def flatten(t, path):
    for n, s in all_fields(t.spec):
        have = dict(t.items)
        if n not in have:
            continue
        if isinstance(have[n], T):
            for x in flatten(have[n], path + [s['id']]):
                yield x
        else:
            yield path + [s['id']], have[n]


def check(case):
    sp = specs(case['form'], {})
    b = Built([])
    b.form(case['form'])
    form = real(b, sp, case['form']['name'], case['values'])
    t = T(case['form'], [(n, model(sp, v)) for n, v in case['values']])
    before = freeze(form)
    op = case['op']
    log, want = [], []
    if op[0] == 'copy':
        got, e = run(form.copy)
        res = t
    elif op[0] == 'flatten':
        got, e = run(lambda: [([f._sid for f in p], v) for p, v in list(form.flatten())])
        res = list(flatten(t, []))
        need(e is None, 'flatten raised %r', e)
        need(len(got) == len(res) and all(a[0] == x[0] and agree(a[1], x[1]) for a, x in zip(got, res)), 'flatten gave %r, expected %r', got, res)
        need(freeze(form) == before, 'flatten changed the form')
        return
    elif op[0] == 'munge':
        def f(new, field, value):
            log.append((field._sid, field.name))
            need(isinstance(new, pilo.Form) and new is not form, 'munge is not given the new form')
            return func(op[1], field._sid, value)
        got, e = run(form.munge, f)
        res = munge(lambda s, v: func(op[1], s['id'], v), t, want)
    else:
        got, e = run(form.filter, *op[1], **({'inv': True} if op[2] else {}))
        res = munge(lambda s, v: v if bool(set(op[1]) & set(s.get('tags', []))) != op[2] else NONE, t, [])
    need(e is None, '%s raised %r', op[0], e)
    need(got is not form, '%s gave the form itself', op[0])
    need(freeze(form) == before, '%s changed the form', op[0])
    need(agree(got, res), '%s gave %r, expected %r', op[0], got, [(n, v) for n, v in res.items])
    need(log == want, 'munge asked %r, expected %r', log, want)
    if op[0] == 'copy':
        need(all(got[k] is form[k] for k in form), 'copy holds other values')
    for n in list(got):
        dict.__delitem__(got, n)
    need(freeze(form) == before, 'the result shares its items with the form')
