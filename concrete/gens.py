"""Random cases for the field properties."""
import datetime
import decimal
import uuid
from model import enc

NAMES = ['a', 'b', 'c', 'd', 'e']
TEXTS = ['', 'a', 'b', 'ab', 'abc', 'abcd', 'A', '1', '12', '-3', '1.5', 'x y', 'true', 'f', 'zz', '\u00e9', 'aa', 'aab', 'b1', '0']
NUMS = [0, 1, -1, 2, 3, 10, -10, 1.0, 0.0, 1.5, -2.5, 100]
SCALARS = TEXTS + NUMS + [True, False, None]


class G(object):

    def __init__(self, rng):
        self.r = rng
        self.n = 0

    def id(self):
        self.n += 1
        return self.n

    def p(self, q):
        return self.r.random() < q

    def pick(self, *a):
        return self.r.choice(a)

    def scalar(self):
        return self.r.choice(SCALARS)

    # ------------------------------------------------------------ options every field has
    def default(self):
        r = self.r.random()
        if r < .2:
            return ['const', enc(self.pick(0, '', 'dflt', 7, [], False, 1.5))]
        if r < .35:
            return ['none']
        if r < .5:
            return ['optional']
        if r < .65:
            return [self.pick('callable', 'object'), enc(self.pick(0, 'made', None, []))]
        if r < .75:
            return ['class']
        return ['hook', self.pick(['const', 'hooked'], ['const', 0], ['none'], ['NONE'], ['ERROR'], ['boom'], ['const', 'hooked'])]

    def hooks(self, names, odds=.5, boom=.05):
        out = {}
        for n in names:
            if not self.p(odds):
                continue
            if self.p(boom):
                out[n] = ['boom']
            elif n == 'compute':
                out[n] = self.pick(['const', 'c'], ['const', 5], ['NONE'], ['ERROR'], ['NOT_SET'], ['none'], ['const', '12'])
            elif n == 'parse':
                out[n] = self.pick(['raw'], ['int'], ['const', 'p'], ['value-error'], ['NONE'], ['ERROR'], ['none'], ['raw'], ['int'])
            elif n == 'munge':
                out[n] = self.pick(['same'], ['wrap'], ['const', 'm'], ['const', 3], ['NONE'], ['ERROR'], ['NOT_SET'], ['none'], ['wrap'])
            else:
                out[n] = self.pick(['true'], ['false'], ['odd'], ['even'], ['truthy'], ['falsy'], ['true'])
        return out

    def base(self, k, **kw):
        d = {'id': self.id(), 'k': k}
        d.update(kw)
        return d

    def form(self, fields, name=None):
        return {'name': name or 'F%d' % self.id(), 'fields': fields}

    def kind(self):
        return self.pick('native', 'native', 'json')

    # ------------------------------------------------------------ simple fields
    def string(self, k='string'):
        f = self.base(k)
        r = self.r
        if self.p(.4):
            q = self.r.random()
            if q < .3:
                f['length'] = r.randint(1, 4)
            elif q < .6:
                lo = r.randint(0, 3)
                f['length'] = [lo, lo + r.randint(0, 3)]
            else:
                if self.p(.7):
                    f['min_length'] = r.randint(0, 3)
                if self.p(.7):
                    f['max_length'] = r.randint(0, 4)
        if self.p(.3):
            f['pattern'] = self.pick('a', 'ab*$', '[a-c]+', '', 'b|ab', r'\d+', '.b', '^$')
            if not f['pattern']:
                del f['pattern']
        if self.p(.3):
            f['alphabet'] = self.pick('ab', 'abc', 'abcdxyz 0123456789', 'a')
        if self.p(.3):
            f['choices'] = r.sample(TEXTS, self.pick(1, r.randint(1, 5)))
            if self.p(.4):
                f['given_as'] = {'choices': self.pick('tuple', 'set', 'frozenset')}
        if self.p(.25):
            keys = r.sample(TEXTS, r.randint(1, 3))
            f['translate'] = [[x, r.choice(TEXTS)] for x in keys]
        if self.p(.3):
            f['nullable'] = self.pick(True, False)
        return f

    def number(self, k=None):
        k = k or self.pick('integer', 'float', 'decimal')
        f = self.base(k)
        r = self.r

        def num():
            if k == 'integer':
                return r.randint(-3, 3)
            if k == 'float':
                return r.choice([0.0, -1.5, 1.5, 2.0, 0, -2, 3, 0.5])
            return decimal.Decimal(r.choice(['0', '1.5', '-1.5', '2', '0.50']))
        self.bound(f, num, ('min_value', 'max_value'), 'range', ('min', 'max', 'range'))
        if self.p(.3):
            f['nullable'] = self.pick(True, False)
        return f

    def bound(self, f, num, names, pair, calls):
        r = self.r.random()
        maybe = lambda: enc(num()) if self.p(.7) else None            # noqa: E731
        if r < .25 and pair:
            f[pair] = [enc(num()), enc(num())]
            if self.p(.3):
                f[pair][self.pick(0, 1)] = None
        elif r < .5:
            for n in names:
                if self.p(.6):
                    f[n] = enc(num())
        elif r < .8:
            f['calls'] = f.get('calls', []) + self.r.choice([[[calls[0], [enc(num())]]], [[calls[1], [enc(num())]]], [[calls[2], [enc(num()), enc(num())]]],
                                                            [[calls[0], [enc(num())]], [calls[1], [enc(num())]]]])
        elif r < .9:
            f[names[0]] = enc(num())
            f['calls'] = f.get('calls', []) + [[calls[1], [enc(num())]]]
        if self.p(.3):
            f['calls'] = f.get('calls', []) + self.r.choice([[[calls[0], [maybe()]]], [[calls[1], [maybe()]]], [[calls[2], [maybe(), maybe()]]]])

    def numvalue(self, f):
        r = self.r
        if f['k'] == 'integer':
            return r.choice([r.randint(-4, 4), str(r.randint(-4, 4)), float(r.randint(-3, 3)), 'x', None, 1.5, True])
        if f['k'] == 'float':
            return r.choice([r.choice([0.0, -1.5, 1.5, 2.0, 2.5, -2.0, -0.0, 0.5]), r.randint(-3, 3), '1.5', '-2', 'x', None])
        return r.choice([decimal.Decimal('0'), decimal.Decimal('1.5'), decimal.Decimal('-1.50'), decimal.Decimal('2.0'), '1.5', '0', '-2',
                         'x', None, 1, 0, -1, 1.5])

    def day(self):
        return datetime.date(2020, self.r.choice([1, 2]), self.r.choice([1, 2, 28]))

    def moment(self):
        return datetime.datetime(2020, 1, self.r.choice([1, 2, 3]), self.r.choice([0, 12]), self.r.choice([0, 30]))

    def clock(self):
        return datetime.time(self.r.choice([0, 1, 12, 23]), self.r.choice([0, 30]))

    def temporal(self, ranges=True, formats=True):
        k = self.pick('date', 'time', 'datetime')
        f = self.base(k)
        if ranges:
            self.bound(f, {'date': self.day, 'time': self.clock, 'datetime': self.moment}[k], ('after', 'before'), None,
                       ('after', 'before', 'between'))
        if formats:
            one = {'date': ['iso8601', '%Y-%m-%d', '%d/%m/%Y', '%Y'], 'time': ['%H:%M', '%H:%M:%S', '%I %p'],
                   'datetime': ['iso8601', '%Y-%m-%d %H:%M', '%Y', '%d/%m/%Y']}[k]
            r = self.r.random()
            fm = self.r.choice(one)
            if k == 'date' and r < .4:
                fm = self.r.sample(one, self.r.randint(1, 4))
                if self.p(.3):
                    fm.append(self.r.choice(fm))
                if self.p(.3):
                    fm = {'$': 'tuple', 'v': fm}
            if self.p(.85):
                if self.p(.5):
                    f['format'] = fm
                else:
                    f['calls'] = f.get('calls', []) + [['format', [fm]]]
        if self.p(.2):
            f['nullable'] = self.pick(True, False)
        return f

    DATETEXT = ['2020-01-02', '2020-02-28', '02/01/2020', '2020', '2020-01-02 10:30', '2020-01-02T10:30:00', '2020-13-01', '12:30', '12:30:01',
                '1 PM', 'nonsense', '', '2020-02-30', '2020-01-02T10:30:00Z', '99', '0', '31/02/2020', ' 2020-01-02', '2020-01-02x']

    def temporal_value(self, f, typed=.4):
        if self.p(typed):
            return {'date': self.day, 'time': self.clock, 'datetime': self.moment}[f['k']]()
        return self.r.choice(self.DATETEXT + [5, None, [], {}, 1.5, True])

    # ------------------------------------------------------------ composite fields
    def element(self, depth=0):
        r = self.r.random()
        if depth > 0 and r < .25:
            return self.container(depth - 1)
        if depth > 0 and r < .4:
            return self.base('sub', form=self.form(self.fields(self.r.randint(1, 3), depth - 1)))
        f = self.base(self.pick('field', 'string', 'integer', 'boolean', 'float'))
        if f['k'] == 'integer' and self.p(.3):
            f['min_value'] = self.r.randint(-1, 2)
        if f['k'] == 'string' and self.p(.3):
            f['max_length'] = self.r.randint(0, 3)
        if self.p(.25):
            f['default'] = self.default()
        if self.p(.15):
            f['nullable'] = self.pick(True, False)
        if self.p(.15):
            f['ignores'] = [enc(self.scalar()) for _ in range(2)]
        if self.p(.2):
            f['hooks'] = self.hooks(('munge', 'filter', 'validate'), .5, .02)
        return f

    def container(self, depth=1, limits=False, kinds=('list', 'tuple', 'dict')):
        k = self.r.choice(kinds)
        f = self.base(k)
        r = self.r
        if k == 'list':
            f['field'] = self.element(depth)
            if limits:
                self.bound(f, lambda: r.randint(0, 3), ('min_length', 'max_length'), 'length', ('min', 'max', 'range'))
                if isinstance(f.get('length'), list) and None in f['length'] and self.p(.5):
                    del f['length']
            elif self.p(.4):
                f['allow_field'] = True
        elif k == 'tuple':
            f['fields'] = [self.element(depth) for _ in range(r.randint(1, 3))]
        else:
            f['key'] = self.base('string')
            if self.p(.3):
                f['key'] = self.base(self.pick('string', 'field'), **self.pick({'hooks': {'munge': self.pick(['wrap'], ['const', 'k'], ['NONE'])}},
                                                                               {'hooks': {'filter': ['odd']}}, {'translate': [['a', 'b']]}, {'ignores': ['b']}))
            if f['key']['k'] == 'string' and self.p(.2):
                f['key']['max_length'] = 1
            f['value'] = self.element(depth)
            if limits:
                if self.p(.5):
                    f['required_keys'] = r.sample(NAMES, r.randint(0, 2))
                if self.p(.5):
                    f['max_keys'] = r.randint(0, 3)
            if self.p(.3):
                f['hooks'] = {'key_filter': self.pick(['isin', ['a', 'b']], ['isin', ['c']], ['true'], ['false'])}
        if limits and self.p(.3):
            f['nullable'] = self.pick(True, False)
        if self.p(.2):
            f['default'] = self.default()
        return f

    def group(self):
        r = self.r
        f = self.base('group', fields=[])
        for _ in range(r.randint(1, 4)):
            q = r.random()
            key = ['s', r.choice(NAMES + ['ab', 'a1'])] if q < .4 else ['b', r.choice(NAMES)] if q < .55 else \
                ['p', r.choice(['a', 'a.', '[bc]$', '^(?P<x>.)1', 'a(b)?', '.', '$', 'z', 'b1', '(?=a)', '', 'z*', '(?!a)', '(a|b)(1)?'])]
            f['fields'].append([key, self.element(0)])
        if self.p(.25):
            f['default'] = self.pick(['const', 'dflt'], ['none'], ['callable', 'made'])
        if self.p(.2):
            f['hooks'] = self.hooks(('munge', 'filter', 'validate'), .4, 0)
        return f

    def fields(self, n, depth=1, tags=False):
        out = []
        for name in NAMES[:n]:
            f = self.element(depth)
            if self.p(.15) and f['k'] not in ('group', 'poly', 'type'):
                f['src'] = self.r.choice(NAMES)
            if tags and self.p(.6):
                f['tags'] = self.r.sample(['t', 'u', 'v'], self.r.randint(1, 2))
            out.append([name, f])
        return out

    # ------------------------------------------------------------ documents
    def data_for(self, f, depth=3, good=.75):
        """Something a field might be given."""
        r = self.r
        k = f['k']
        if self.p(.08):
            return None
        if not self.p(good) or depth < 0:
            return r.choice([self.scalar(), [], {}, [1], {'a': 1}, 'ab', ['a', 2]])
        if k in ('string', 'field', 'type'):
            if k == 'type':
                return r.choice((f['choices_'] or []) + ['t1', 't2'])
            return r.choice(TEXTS) if self.p(.8) else self.scalar()
        if k in ('integer', 'float', 'decimal'):
            return self.numvalue(f)
        if k == 'boolean':
            return self.pick(True, False, 1, 0, 'true', 'F')
        if k in ('date', 'time', 'datetime'):
            return self.temporal_value(f)
        if k == 'list':
            if f.get('allow_field') and self.p(.4):
                return self.data_for(f['field'], depth - 1)
            return [self.data_for(f['field'], depth - 1, .85) for _ in range(r.randint(0, 4))]
        if k == 'tuple':
            n = len(f['fields'])
            if self.p(.2):
                n = r.randint(0, 4)
            return [self.data_for(f['fields'][i % len(f['fields'])], depth - 1, .85) for i in range(n)]
        if k == 'dict':
            return dict((x, self.data_for(f['value'], depth - 1, .85)) for x in r.sample(NAMES, r.randint(0, 4)))
        if k == 'sub':
            return self.doc(f['form'], depth - 1)
        if k == 'poly':
            spec = r.choice([f['base']] + f['forms'])
            from model import all_fields
            d = self.doc(spec, depth - 1)
            t = dict(all_fields(spec))[f['type_name']]
            key = t.get('src', f['type_name'])
            if self.p(.8) and t['choices_']:
                d[key] = r.choice(t['choices_'])
            elif self.p(.5):
                d[key] = r.choice(['t1', 't2', 't3', None, 5, '', 'nope'])
            return d
        return self.scalar()

    def doc(self, form, depth=3, present=.8):
        from model import all_fields
        out = {}
        for n, f in all_fields(form):
            if f['k'] == 'group':
                for x in self.r.sample(NAMES + ['ab', 'a1', 'b1', 'a2', 'zz'], self.r.randint(0, 5)):
                    out[x] = self.data_for(self.base('field'), 0)
                continue
            key = f.get('src', n)
            if key is not None and self.p(present):
                out[key] = self.data_for(f, depth)
        if self.p(.3):
            for _ in range(2):
                out.setdefault(self.pick('x', 'y', 'zz'), self.scalar())
        return out

    def case(self, form, kind=None, doc=None, **kw):
        kind = kind or self.kind()
        d = self.doc(form) if doc is None else doc
        if kind != 'native':
            d = plain(d)
        c = {'form': form, 'kind': kind, 'data': enc(d)}
        c.update(kw)
        if self.p(.12):
            c['again'] = True
        return c


def plain(v):
    """A JSON document."""
    if isinstance(v, dict):
        return dict((str(k), plain(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return str(v)
