"""C14 on the real code."""
import pilo
from lib import need, run
from model import Built, Model, FormM, Stop, Reject, Skip, all_fields, agree, dec, enc, is_mark, map_case, snapshot, source
from pilo import fields as pf
from gens import G, NAMES

RULE = 'sequences of reads, writes, deletions and `has` on the field attributes of a form outside any mapping (with and without a source), ' \
       'or of a form that has nothing to do with the one being mapped, from one of its hooks, ' \
       'and hooks that read sibling fields and the outermost form from inside nested mappings; non-trivial: distinct (form, operations)'


def cases(rng):
    g = G(rng)
    if g.p(.5):
        form = g.form(g.fields(rng.randint(1, 4), 1))
        ops = []
        for _ in range(rng.randint(1, 6)):
            n = rng.choice(NAMES[:len(form['fields'])])
            ops.append(g.pick(['get', n], ['get', n], ['set', n, enc(g.pick('s', 0, None, [1], False))], ['del', n], ['class', n], ['has', n]))
        if g.p(.3):
            return {'way': 'unrelated', 'form': form, 'src': g.p(.5), 'kind': 'native', 'data': enc(g.doc(form)), 'ops': ops, 'nested': g.p(.5)}
        return {'way': 'outside', 'form': form, 'src': g.p(.7), 'kind': 'native', 'data': enc(g.doc(form)), 'ops': ops}
    inner = g.form(g.fields(rng.randint(1, 3), 0))
    fields = g.fields(rng.randint(2, 4), 0)
    if g.p(.7):
        sub = g.base('sub', form=inner)
        fields.insert(rng.randint(0, len(fields)), ['s', sub if g.p(.6) else g.base('list', field=sub)])
    form = g.form(fields)
    names = [n for n, f in fields]
    for n, f in fields + inner['fields']:
        if f['k'] in ('sub', 'list') or not g.p(.4):
            continue
        own = names if [n, f] in fields else [m for m, h in inner['fields']]
        where = g.pick('compute', 'munge', 'munge')
        if g.p(.5):
            f.setdefault('hooks', {})[where] = ['read', rng.choice([m for m in own if m != n] or own)]
        else:
            f.setdefault('hooks', {})[where] = ['root', rng.choice(names)]
    if cyclic(form):
        return cases(rng)
    c = g.case(form)
    c['way'] = 'inside'
    return c


def cyclic(form):
    """A read that may come back to a field being mapped never ends: not a case."""
    edges = {}

    def walk(spec, depth):
        for n, f in all_fields(spec):
            me = (depth, n)
            for h in f.get('hooks', {}).values():
                if h[0] == 'read':
                    edges.setdefault(me, set()).add((depth, h[1]))
                elif h[0] == 'root':
                    edges.setdefault(me, set()).add((0, h[1]))
            s = f if f['k'] == 'sub' else f.get('field') if f['k'] == 'list' else None
            if s and s.get('k') == 'sub':
                for m, x in all_fields(s['form']):
                    edges.setdefault(me, set()).add((depth + 1, m))
                walk(s['form'], depth + 1)
    walk(form, 0)

    def reach(x, seen):
        for y in edges.get(x, ()):
            if y in seen or reach(y, seen | {y}):
                return True
        return False
    return any(reach(x, {x}) for x in list(edges))


FIXED = [{'way': 'has', 'name': n, 'stored': v} for n in ('zz', 'plain', 'items', 'fields') for v in ([], [0], [None])]


def check(case):
    if case['way'] == 'has':
        class Some(pilo.Form):
            plain = 5
            a = pilo.fields.Integer()
        form = Some()
        for v in case['stored']:
            form[case['name']] = v
        got, e = run(form.has, case['name'])
        need(e is None and got is bool(case['stored']), 'has(%r) of %r gave %r', case['name'], dict(form), e or got)
        need(dict(form) == dict((case['name'], v) for v in case['stored']), 'has changed the form to %r', dict(form))
        return
    if case['way'] == 'inside':
        map_case(case)
        return
    if case['way'] == 'unrelated':
        # from a hook of another form that is being mapped
        seen = []

        def go(self):
            seen.append(1)
            operate(case, True)
            return 'x'
        body = {'f': pilo.fields.Field('f')}
        body['f'].compute.attach(body['f'])(go)
        other = type(pilo.Form)('Other', (pilo.Form,), body)
        if case['nested']:
            other = type(pilo.Form)('Outer', (pilo.Form,), {'s': pilo.fields.SubForm(other)})
            other().map({'s': {'f': 1}})
        else:
            other().map({'f': 1})
        need(seen == [1], 'the hook ran %d times', len(seen))
        return
    operate(case, False)


def operate(case, unrelated):
    log = []
    b = Built(log)
    cls = b.form(case['form'])
    form = b.root = cls()
    data = dec(case['data'])
    if case['src']:
        form.src = source('native', data)
    if not case['src'] or unrelated:
        data = {}
    fm = FormM(case['form'])
    fields = dict(all_fields(case['form']))
    before = snapshot()
    for i, op in enumerate(case['ops']):
        n = op[1]
        what = 'step %d %r' % (i, op)
        if op[0] == 'class':
            need(getattr(cls, n)._sid == fields[n]['id'], '%s: the class attribute is not the field', what)
        elif op[0] == 'set':
            setattr(form, n, dec(op[2]))
            fm[n] = dec(op[2])
        elif op[0] == 'del':
            got, e = run(delattr, form, n)
            need(e is None, '%s raised %r', what, e)
            fm.pop(n, None)
        else:
            m = Model('native', data)
            exc, val = None, None
            if n in fm:
                val = fm[n]
            else:
                m.forms.append((fm, [], m.errors))
                try:
                    val = m.map(fields[n], n)
                except Stop as e:
                    exc = e.kind
                except Skip:
                    return
            fails = exc or m.errors or is_mark(val)
            log[:] = []
            if op[0] == 'has':
                got, e = run(form.has, n)
                if exc == 'Boom' or (m.errors and exc):
                    return
                need(e is None, '%s raised %r', what, e)
                need(got == (n in fm or (not fails and val is not None)), '%s answered %r', what, got)
            else:
                got, e = run(getattr, form, n)
                if fails:
                    ok = (AttributeError, pf.FormError) if not exc or m.errors else (KeyError, AttributeError)
                    if exc and m.errors:
                        ok = Exception
                    need(isinstance(e, ok), '%s gave %r, expected an error (%s)', what, got if e is None else e, m.errors or exc or val)
                else:
                    need(e is None, '%s raised %r', what, e)
                    need(agree(got, val), '%s gave %r, expected %r', what, got, val)
                if n in fm:
                    need(not log, '%s: a stored value was mapped again', what)
                elif not fails:
                    need(log == m.log, '%s: hooks ran as %r, expected %r', what, log, m.log)
            if not fails:
                fm[n] = val
        need(snapshot() == before, '%s: the context is not restored', what)
        need(set(form) == set(fm) and all(agree(form[k], fm[k]) for k in fm), '%s: the form holds %r, expected %r', what, dict(form), fm)
