"""C13 on the real code."""
from lib import need, run
from model import map_case, Built, Model, FormM, Stop, Reject, Skip, dec, source, same_errors, snapshot
from pilo import ctx, fields as pf
from gens import G

RULE = 'forms with nested sub forms, lists of sub forms and failing fields at any depth, mapped with error=collect and error=raise and by ' \
       'construction; non-trivial: distinct (form, document, way)'


def cases(rng):
    g = G(rng)
    form = g.form(g.fields(rng.randint(1, 4), 2))
    c = g.case(form)
    c['error'] = g.pick('collect', 'collect', 'raise', 'new')
    return c


class Equal(object):
    """Errors of one field equal one another; each is reported all the same."""

    def __eq__(self, other):
        return type(self) is type(other) and self.field is other.field

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 7


class TheirMissing(Equal, pf.Missing):
    pass


class TheirInvalid(Equal, pf.Invalid):
    pass


FIXED = [{'bound': b, 'way': w} for b in ([], ['Missing'], ['Invalid'], ['Missing', 'Invalid']) for w in ('collect', 'raise')]


def bound(case):
    """Errors are of the classes the context binds, pilo's own for those it does not."""
    theirs = {'Missing': TheirMissing, 'Invalid': TheirInvalid}
    binds = {k: theirs[k] for k in case['bound']}

    class Sub(pf.Form):
        low = pf.Integer().min(5)
        gone = pf.String()

    class Top(pf.Form):
        first = pf.String()
        sub = pf.SubForm(Sub)
        more = pf.List(pf.SubForm(Sub))
        last = pf.String(choices=['a'])

    wants = [('first', 'Missing')] + [('low', 'Invalid'), ('gone', 'Missing')] * 3 + [('last', 'Invalid')]
    data = {'sub': {'low': 1}, 'more': [{'low': 1}, {'low': 2}], 'last': 'b'}
    with ctx(**binds):
        got, e = run(lambda: Top().map(source('default', data), error=case['way']))
    if case['way'] == 'raise':
        need(isinstance(e, pf.FormError), 'mapping with errors ended with %r', e or got)
        got, wants = e.field_errors, wants[:1]
    else:
        need(e is None, 'mapping raised %r', e)
    need([(x.field.name, type(x)) for x in got] == [(n, binds.get(k, getattr(pf, k))) for n, k in wants],
         'errors %r, expected %r with %r bound', got, wants, binds)


def check(case):
    if 'bound' in case:
        return bound(case)
    if case['error'] != 'new':
        map_case(case, compare_log=case['error'] == 'collect')
        return
    data = dec(case['data'])
    b = Built([])
    cls = b.form(case['form'])
    m = Model(case['kind'], data)
    exc = None
    try:
        m.map_form(FormM(case['form']), None, 'ignore')
    except Stop as e:
        exc = e.kind
    except Reject:
        exc = 'SourceError'
    except Skip:
        return
    before = snapshot()
    got, e = run(cls, source(case['kind'], data))
    need(snapshot() == before, 'the context is not restored')
    if exc:
        need(e is not None and type(e).__name__ == exc, 'construction ended with %r, expected %s', e, exc)
    elif m.errors:
        need(isinstance(e, pf.FormError), 'construction with errors %r ended with %r', m.errors, e or got)
        same_errors(list(e.field_errors), m.errors, 'construction')
    else:
        need(e is None, 'construction without errors raised %r', e)
