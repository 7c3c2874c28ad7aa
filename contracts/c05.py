"""C05: primitive coercion is exact or a source error."""
from .common import *          # noqa: F401,F403
from pyvc.values import (STRISINT, STRTOINT, STRISFLT, STRTOFLT, INTTOFLTOK, INTTOFLT, FLTTOINT, LOWER)

ASSUMPTIONS = [
    'which texts int()/float() accept, and the numbers they denote, are the interpreter\'s (uninterpreted functions)',
    'values of a document are None, booleans, integers, floats, texts or objects that are none of these',
]
INTEGRAL = fn('float_is_integer', FLT, BOOL)
KINDS = ('none', 'bool', 'int', 'flt', 'str', 'object', 'list')
TYPES = ('str', 'int', 'float', 'bool', 'auto')


def is_integral(f):
    return z3.And(z3.Not(z3.fpIsInf(f)), z3.Not(z3.fpIsNaN(f)), z3.fpRoundToIntegral(z3.RTZ(), f) == f)


def truthy_text(s):
    return z3.Or([LOWER(s) == z3.StringVal(x) for x in ('1', 't', 'true')])


def falsy_text(s):
    return z3.Or([LOWER(s) == z3.StringVal(x) for x in ('0', 'f', 'false')])


def expected(it, src, typ, kind, t, val):
    """(condition for success, result) by the statement of the property; result None means "the value itself"."""
    yes, no = z3.BoolVal(True), z3.BoolVal(False)
    json, strict = src != 'native' and src != 'config', src == 'json-strict'
    if typ == 'auto':
        return yes, None
    if typ == 'str':
        if kind == 'str':
            return yes, None
        return (yes, 'text') if json and not strict else (no, None)
    if typ == 'int':
        if kind == 'int':
            return yes, None
        if kind == 'flt' and not strict:
            return is_integral(t), V.int(FLTTOINT(t))
        if kind == 'str' and not strict:
            return STRISINT(t), V.int(STRTOINT(t))
        return no, None
    if typ == 'float':
        if kind == 'flt':
            return yes, None
        if kind == 'int':
            return INTTOFLTOK(t), V.flt(INTTOFLT(t))
        if kind == 'bool':
            n = z3.If(t, z3.IntVal(1), z3.IntVal(0))
            return INTTOFLTOK(n), V.flt(INTTOFLT(n))
        if kind == 'str' and not strict:
            return STRISFLT(t), V.flt(STRTOFLT(t))
        return no, None
    if kind == 'bool':
        return yes, None
    if kind == 'int' and not strict:
        return yes, V.bool(t != 0)
    if kind == 'str' and not json:
        return z3.Or(truthy_text(t), falsy_text(t)), V.bool(truthy_text(t))
    return no, None


class Primitive(Harness):
    covers = ('done',)

    def __init__(self, src, typ, how='plain'):
        self.src, self.typ, self.how = src, typ, how
        self.name = 'primitive-%s-%s-%s' % (src, typ, how)
        m = 'pilo.source.%sSource.' % {'native': 'default.Default', 'config': 'configparser.Config'}.get(src, 'json.Json')
        base = m if src.startswith('json') else 'pilo.source.ParserMixin.'
        self.functions = (m + 'primitive', base + 'parser', base + {
            'str': 'as_string', 'int': 'as_int', 'float': 'as_float', 'bool': 'as_bool', 'auto': 'as_auto'}[typ])

    def run(self, it):
        names = {'native': ('default', 'DefaultSource'), 'config': ('configparser', 'ConfigSource')}
        mod_, cls = names.get(self.src, ('json', 'JsonSource'))
        src = it.new(member(it, 'pilo.source.' + mod_, cls))
        src.attrs.update({'strict': self.src == 'json-strict', 'location': None, 'preserve_whitespace': False, 'config': None,
                          'aliases': None, 'ignores': None, 'data': None, 'section': None, 'defaults': None, 'text': None})
        kind = KINDS[it.choose(len(KINDS))]
        sort = {'bool': BOOL, 'int': INT, 'flt': FLT, 'str': STR}.get(kind)
        if sort is not None:
            t = z3.Const('value', sort)
            val = Sym(t)
        else:
            t = None
            val = {'none': None, 'object': it.new(host_class(it, 'Thing', None, {})), 'list': it.list_of([1, 'x'])}[kind] \
                if kind != 'none' else None
        p = it.new(host_class(it, 'SomePath', None, {'value': getter(lambda it, o: val),
                                                     '__str__': lambda it, a, k: 'p'}))
        typ = {'auto': None}.get(self.typ, it.B.get(self.typ) if self.typ != 'auto' else None)
        other = it.B['float' if self.typ == 'bool' else 'bool']
        if self.how == 'plain':
            types = [typ]
        elif self.how == 'none':
            types = []
        elif self.how == 'subclass':
            types = [host_class(it, 'Mine', [typ], {})]
        elif self.how == 'beyond':
            # the first choice is a type which no source knows
            odd = host_class(it, 'Odd', None, {})
            types = [odd, host_class(it, 'Mine', [typ], {})]
        else:
            # a subclass asked for first, and another type as second choice
            types = [typ, other]
            warm = host_class(it, 'Warm', [other], {})
            attempt(it, lambda: it.call(it.getattr(src, 'primitive'), [p, warm]))
        ok, want = expected(it, self.src, self.typ, kind, t, val)
        ask = lambda: attempt(it, lambda: it.call(it.getattr(src, 'primitive'), [p] + types))     # noqa: E731
        for turn in ('', ' again'):
            r = ask()
            it.cover('done')
            if r.ok:
                it.prove('a value is given only when the data says one' + turn, ok)
                if want is None:
                    it.prove('the value is the data itself' + turn, same(it, r.value, val))
                elif isinstance(want, str):
                    it.prove('the value is the text of the data' + turn, same(it, r.value, it.py_str(val)))
                else:
                    it.prove('the value is what the data says' + turn, it.to_V(r.value) == want)
            else:
                it.prove('an error only when the data says no such value' + turn, z3.Not(ok))
                it.prove('the error is a SourceError' + turn, it.exc_matches(r.exc, member(it, 'pilo.source', 'SourceError')))
        if self.how == 'beyond':
            r = attempt(it, lambda: it.call(it.getattr(src, 'primitive'), [p, odd]))
            it.prove('a type which is none of these is a mistake still', not r.ok and r.exc.cls.name == 'ValueError')
        # whatever was asked, the base types are still coerced by their own rules
        for base, v, good in (('str', 'x', True), ('int', 3, True), ('float', 1.5, True), ('bool', True, True),
                              ('int', 1.5, False), ('int', True, False), ('bool', 1.5, False), ('float', None, False)):
            val = v
            r = attempt(it, lambda: it.call(it.getattr(src, 'primitive'), [p, it.B[base]]))
            it.prove('asking for %s %s afterwards' % (base, v), r.ok == good and (not r.ok or r.value is v or r.value == v))


HARNESSES = [Primitive(s, t, h) for s in ('native', 'json', 'json-strict', 'config') for t in TYPES
             for h in (('plain', 'none') if t == 'auto' else ('plain', 'subclass', 'second', 'beyond'))]
