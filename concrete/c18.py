"""C18 on the real code."""
import itertools
import pilo
from lib import need, run
from pilo import fields as pf
from gens import NAMES

RULE = 'families of 1-5 form classes, single and multiple inheritance, fields declared, overridden, hidden by non-fields, given an ' \
       'explicit source key or hooked, and classes made by from_fields; non-trivial: distinct (family)'
KINDS = {'s': pf.String, 'i': pf.Integer, 'f': pf.Field, 'b': pf.Boolean}


def cases(rng):
    classes = []
    for i in range(rng.randint(1, 5)):
        bases = []
        if i and rng.random() < .8:
            bases = [rng.randrange(i)]
            if i > 1 and rng.random() < .4:
                bases = sorted(rng.sample(range(i), 2), reverse=rng.random() < .5)
        decls = []
        for n in rng.sample(NAMES + ['z', 'A', '_p'], rng.randint(0, 4)):
            r = rng.random()
            decls.append([n, rng.choice('sifb'), None if r < .6 else rng.choice(['k1', 'k2', n]), rng.random() < .2, rng.random() < .06])
        classes.append({'bases': bases, 'decls': decls, 'from_fields': rng.random() < .2})
    return {'classes': classes}


FIXED = [{'shared': names, 'sub': sub} for names in (['a', 'b'], ['b', 'a', 'c'], ['z', 'A']) for sub in (False, True)]


def info(cls):
    return [(id(f), f.name, f.src, id(f.parent)) for f in cls.fields]


def shared(case):
    """A field under several names of one class is one field of it."""
    f, g = pf.Integer(), pf.String()
    ns = dict((n, f) for n in case['shared'])
    cls = type('C', (pilo.Form,), dict(ns, other=g))
    if case['sub']:
        cls = type('D', (cls,), {})
    need([id(x) for x in cls.fields] == [id(f), id(g)], 'the fields are %r', [x.name for x in cls.fields])
    need(f.name in case['shared'] and all(getattr(cls, n) is f for n in case['shared']), 'the field is named %r', f.name)


def check(case):
    if 'shared' in case:
        return shared(case)
    made, plain, models, hidden, clock = [], [], [], [], itertools.count()
    for ci, c in enumerate(case['classes']):
        ns, mine = {}, []
        for n, k, src, hooked, hide in c['decls']:
            if hide:
                ns[n] = None
                mine.append((n, None, None))
                continue
            f = KINDS[k](src) if src is not None else KINDS[k]()
            if hooked:
                def munge(self, value):
                    return value
                g = f.munge(munge)
                need(g is f, 'a hook used as a decorator gives back %r', g)
                f = g
            ns[n] = f
            mine.append((n, f, src))
        before = [info(m) for m in made]
        bases = tuple(made[b] for b in c['bases']) or (pilo.Form,)
        if len(bases) == 2 and (issubclass(bases[0], bases[1]) or issubclass(bases[1], bases[0])):
            return
        try:
            plain.append(type('P', tuple(plain[b] for b in c['bases']) or (object,), {}))
        except TypeError:
            return                # (no classes have such bases)
        if c['from_fields'] and len(bases) == 1 and not any(h for _, _, _, _, h in c['decls']):
            if bases[0] is pilo.Form and len(ns) % 2:
                sub = pf.SubForm.from_fields(**ns)
                need(isinstance(sub, pf.SubForm), 'SubForm.from_fields gave %r', sub)
                cls = sub.form_type
            else:
                cls = bases[0].from_fields(**ns)
        else:
            cls = type('C%d' % ci, bases, ns)
        # the statement: the inherited fields as declared, an overriding field in the overridden one's place, the new ones as declared
        want = []
        for b in c['bases']:
            for x in models[b]:
                y = [w for w in want if w[0] == x[0]]
                if y and y[0][1] is not x[1]:
                    return            # two different inherited fields of one name: not a case
                if not y:
                    want.append(x)
        hid = set(h for b in c['bases'] for h in hidden[b])
        for n, f, src in mine:
            at = [i for i, x in enumerate(want) if x[0] == n]
            if n in hid:
                return                # hidden and declared again: not a case
            if f is None:
                want = [x for x in want if x[0] != n]
                hid.add(n)
                continue
            place = want[at[0]][4] if at else next(clock)
            entry = (n, f, src if src is not None else n, cls, place)
            if at:
                want[at[0]] = entry
            else:
                want.append(entry)
        if any(x[0] in hid for x in want):
            return
        want.sort(key=lambda x: x[4])
        hidden.append(hid)
        made.append(cls)
        models.append(want)
        got = cls.fields
        need([id(f) for f in got] == [id(x[1]) for x in want], 'class %d lists %r, expected %r', ci, [f.name for f in got], [x[0] for x in want])
        for f, (n, _, src, parent, _p) in zip(got, want):
            need(f.name == n and f.src == src and f.parent is parent, 'field %r of class %d: name %r src %r parent %r', n, ci, f.name, f.src, f.parent)
            need(getattr(cls, n) is f, 'attribute %r of class %d is not its field', n, ci)
        need([info(m) for m in made[:-1]] == before, 'deriving class %d changed a base class', ci)
