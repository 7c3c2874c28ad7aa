"""C08: string constraints accept exactly the strings that satisfy them."""
from .valid import *          # noqa: F401,F403
from pyvc.builtins import RE_MATCH

ASSUMPTIONS = ['which texts a compiled pattern matches is the re module\'s (uninterpreted per pattern and kind of match)',
               'a bound is an integer, an alphabet a non-empty text, the choices a non-empty list, tuple or set']


class Strings(Validation):
    functions = Validation.functions + (FIELDS + 'String.__init__', FIELDS + 'String._validate')

    def __init__(self, *opts, **k):
        self.opts = opts
        self.kind = k.get('kind', 'String')
        self.name = self.kind.lower() + '-' + ('+'.join(opts) or 'plain')
        if not opts:
            self.covers = ('accepted', 'null')

    def build(self, it, w):
        kw = {}
        self.lo = self.hi = self.alphabet = self.choices = self.pid = None
        for o in self.opts:
            if o == 'min':
                self.lo = z3.Const('lo', INT)
                kw['min_length'] = Sym(self.lo)
            elif o == 'max':
                self.hi = z3.Const('hi', INT)
                kw['max_length'] = Sym(self.hi)
            elif o == 'length':
                self.lo = self.hi = z3.Const('lo', INT)
                it.assume(self.lo >= 1)
                kw['length'] = Sym(self.lo)
            elif o in ('pair', 'pairlist'):
                self.lo, self.hi = z3.Const('lo', INT), z3.Const('hi', INT)
                p = [Sym(self.lo), Sym(self.hi)]
                kw['length'] = tuple(p) if o == 'pair' else it.list_of(p)
            elif o == 'pattern':
                # a compiled pattern of the client
                re = it.loader.bi.modules['re'].ns
                self.p = it.call(re['compile'], [Sym(z3.Const('pattern_text', STR))])
                self.pid = it.loader.bi.patid(it, self.p)
                kw['pattern'] = self.p
            elif o == 'text':
                self.pid = 'a.c'
                kw['pattern'] = 'a.c'
            elif o == 'alphabet':
                self.alphabet = z3.Const('alphabet', STR)
                it.assume(z3.Length(self.alphabet) > 0)
                kw['alphabet'] = Sym(self.alphabet)
            elif o == 'choice-set':
                cs = [Sym(z3.Const('choice%d' % i, STR)) for i in range(1)]
                kw['choices'] = it.new_set(cs)
                self.choices = z3.Unit(V.str(cs[0].t)) if len(cs) == 1 else z3.Concat(*[z3.Unit(V.str(c.t)) for c in cs])
            elif o in ('choice-tuple', 'choice-pair-tuple'):
                cs = [Sym(z3.Const('choice%d' % i, STR)) for i in range(2 if o == 'choice-pair-tuple' else 1)]
                kw['choices'] = tuple(cs)
                self.choices = z3.Unit(V.str(cs[0].t)) if len(cs) == 1 else z3.Concat(*[z3.Unit(V.str(c.t)) for c in cs])
            elif o in ('choices', 'one-choice'):
                self.choices = z3.Const('choices', SEQ)
                if o == 'choices':
                    it.assume(z3.Length(self.choices) > 0)
                    kw['choices'] = it.new_list([('s', self.choices, None)], 'choices')
                else:
                    kw['choices'] = it.list_of([Sym(z3.Const('only_choice', STR))])
                    self.choices = z3.Unit(V.str(z3.Const('only_choice', STR)))
        self.kw = kw
        f = it.instantiate(w.fields[self.kind], [], kw)
        self.tr = None
        if 'translate' in self.opts:
            self.tr = [z3.Const('to%d' % i, STR) for i in (0, 1)]
            it.call(it.getattr(f, 'translate'), [it.new_dict({'x': Sym(self.tr[0]), 'y': Sym(self.tr[1])})])
        return f

    def value(self, it, w, f):
        s = z3.Const('text', STR)
        if self.alphabet is not None:
            u = self.translated(it, w, f, Sym(s)).t
            ch = lambda k: z3.Not(z3.Contains(self.alphabet, z3.SubString(u, k, 1)))       # noqa: E731
            self.bad = PrefixFn("bad", BOOL, z3.BoolVal(False), lambda k: z3.Or(self.bad.f(k), ch(k)))
            it.prefix_fns.append(self.bad)
        return Sym(s)

    def translated(self, it, w, f, v):
        if self.tr is None:
            return v
        return Sym(z3.If(v.t == z3.StringVal('x'), self.tr[0], z3.If(v.t == z3.StringVal('y'), self.tr[1], v.t)))

    def accepts(self, it, w, f, v):
        s = v.t
        out = []
        n = z3.Length(s)
        if self.lo is not None:
            out.append(n >= self.lo)
        if self.hi is not None:
            out.append(n <= self.hi)
        if self.pid is not None:
            pid = self.pid
            if isinstance(pid, str):
                pid = it.loader.pattern_id('a.c')
            out.append(RE_MATCH(pid, z3.StringVal('match'), s))
        if self.alphabet is not None:
            out.append(z3.Not(self.bad.f(n)))
        if self.choices is not None:
            c = [z3.Contains(self.choices, z3.Unit(V.str(s)))]
            if self.tr is not None:
                c += [s == t for t in self.tr]
            out.append(z3.Or(c))
        return z3.And([z3.BoolVal(True)] + out)


HARNESSES = [Strings(*o) for o in (
    (), ('min',), ('max',), ('min', 'max'), ('length',), ('pair',), ('pairlist',), ('pattern',), ('text',), ('alphabet',), ('choices',),
    ('choice-set',), ('choice-tuple',), ('choice-pair-tuple', 'translate'),
    ('one-choice',), ('choices', 'translate'), ('one-choice', 'translate'), ('min', 'max', 'pattern', 'alphabet', 'choices'),
    ('length', 'text', 'alphabet', 'choices', 'translate'))] + [
    Strings(*o, kind='Type') for o in ((), ('choices',), ('min', 'pattern'), ('choices', 'translate'))]
