"""C09 on the real code."""
import datetime
import decimal
from model import map_case, enc
from gens import G

RULE = 'every numeric and temporal field with bounds given in every way, over values below, at and above them and null; non-trivial: ' \
       'distinct (field, value)'


def cases(rng):
    g = G(rng)
    if g.p(.5):
        f = g.number()
        v = g.numvalue(f)
    else:
        f = g.temporal(formats=False)
        v = g.temporal_value(f, 1) if g.p(.9) else None
    return g.case(g.form([['a', f]]), kind='native', doc={'a': v})


INF = (float('nan'), float('inf'), float('-inf'))        # what is not a number is neither below nor above a bound


def fixed():
    out = []
    D = decimal.Decimal
    d, t, dt = datetime.date, datetime.time, datetime.datetime
    kinds = {'integer': (-1, 0, 1, 2), 'float': (-1.0, 0.0, 0.5, 1.0), 'decimal': (D('-1'), D('0'), D('0.5'), D('1')),
             'date': (d(2020, 1, 1), d(2020, 1, 2), d(2020, 1, 3), d(2020, 2, 1)), 'time': (t(0, 0), t(0, 1), t(1, 0), t(23, 59)),
             'datetime': (dt(2020, 1, 1), dt(2020, 1, 1, 1), dt(2020, 1, 2), dt(2021, 1, 1))}
    for k, vs in kinds.items():
        num = k in ('integer', 'float', 'decimal')
        lo, hi = ('min_value', 'max_value') if num else ('after', 'before')
        clo, chi, cboth = ('min', 'max', 'range') if num else ('after', 'before', 'between')
        for a in (None,) + vs[:3]:
            for b in (None,) + vs[1:]:
                ways = [{lo: enc(a), hi: enc(b)}]
                calls = []
                if a is not None:
                    calls.append([clo, [enc(a)]])
                if b is not None:
                    calls.append([chi, [enc(b)]])
                ways.append({'calls': calls})
                if a is not None and b is not None:
                    ways.append({'calls': [[cboth, [enc(a), enc(b)]]]})
                    if num:
                        ways.append({'range': [enc(a), enc(b)]})
                # replacing bounds given before
                old = {lo: enc(vs[1]), hi: enc(vs[2])}
                ways.append(dict(old, calls=[[cboth, [enc(a), enc(b)]]]))
                ways.append(dict(old, calls=[[chi, [enc(b)]], [clo, [enc(a)]]]))
                for w in ways:
                    for v in vs + (INF if k == 'float' else ()):
                        out.append({'form': {'name': 'F', 'fields': [['a', dict({'id': 1, 'k': k}, **w)]]}, 'kind': 'native',
                                    'data': {'a': enc(v)}})
                out.append({'form': {'name': 'F', 'fields': [['a', dict({'id': 1, 'k': k, 'nullable': False}, **ways[0])]]}, 'kind': 'native',
                            'data': {'a': None}})
    return out


FIXED = fixed()


def check(case):
    map_case(case)
