"""C09: number, date and time ranges are inclusive and exact."""
from .valid import *          # noqa: F401,F403

ASSUMPTIONS = ['dates, times, datetimes and decimals (not NaN) of one type are totally ordered by <; comparing an int with a float is the '
               'interpreter\'s (uninterpreted)']
NUMBERS = {'Integer': 'int', 'Float': 'flt', 'Decimal': 'Decimal'}
TIMES = {'Date': 'date', 'Time': 'time', 'Datetime': 'datetime', 'Time-struct': 'struct_time'}
ORDER_MODULES = {'Decimal': 'decimal', 'date': 'datetime', 'time': 'datetime', 'datetime': 'datetime', 'struct_time': 'time'}


class Range(Validation):
    def __init__(self, cls, way, have='both', mixed=False):
        self.cls, self.way, self.have, self.mixed = cls, way, have, mixed
        self.name = 'range-%s-%s-%s%s' % (cls, way, have, '-mixed' if mixed else '')
        c = cls.split('-')[0]
        own = 'Number' if cls in NUMBERS else c
        self.functions = Validation.functions + (FIELDS + own + '.__init__', FIELDS + own + '._validate') + tuple(
            FIELDS + x for x in (('Number.min', 'Number.max', 'Number.range') if cls in NUMBERS else
                                 ('RangeMixin.after', 'RangeMixin.before', 'RangeMixin.between')))
        if have == 'none':
            self.covers = ('accepted', 'null')

    def term(self, it, name, mixed=False):
        k = NUMBERS.get(self.cls) or TIMES[self.cls]
        if k in ('int', 'flt'):
            if mixed:
                k = {'int': 'flt', 'flt': 'int'}[k]
            t = z3.Const(name, INT if k == 'int' else FLT)
            return Sym(t), (V.int if k == 'int' else V.flt)(t)
        c = it.loader.bi.modules[ORDER_MODULES[k]].ns[k]
        t = z3.Const(name, V)
        return it.loader.bi.opaque(it, t, c), t

    def build(self, it, w):
        lo, self.lo = self.term(it, 'lo', self.mixed) if self.have in ('both', 'lo') else (None, None)
        hi, self.hi = self.term(it, 'hi', self.mixed) if self.have in ('both', 'hi') else (None, None)
        num = self.cls in NUMBERS
        names = ('min_value', 'max_value') if num else ('after', 'before')
        kw = {}
        if self.way == 'options':
            if self.have in ('both', 'lo'):
                kw[names[0]] = lo
            if self.have in ('both', 'hi'):
                kw[names[1]] = hi
        elif self.way == 'range-option':
            kw['range'] = (lo, hi)
        elif self.way in ('calls-over', 'range-over'):
            # bounds given before, all of which the later calls replace
            for n in names:
                kw[n] = self.term(it, 'old ' + n)[0]
        f = it.instantiate(w.fields[self.cls.split('-')[0]], [], kw)
        call = lambda m, *a: it.call(it.getattr(f, m), list(a))       # noqa: E731
        r = f
        if self.way == 'calls':
            if self.have in ('both', 'lo'):
                r = call('min' if num else 'after', lo)
            if self.have in ('both', 'hi'):
                r = call('max' if num else 'before', hi)
        elif self.way == 'calls-over':
            call('max' if num else 'before', hi)
            call('min' if num else 'after', lo)
        elif self.way in ('range-call', 'range-over'):
            r = call('range' if num else 'between', lo, hi)
        return f

    def value(self, it, w, f):
        v, self.v = self.term(it, 'v')
        k = NUMBERS.get(self.cls) or TIMES[self.cls]
        if k not in ('int', 'flt'):
            from pyvc.objects import ULT, ULE, UEQ
            for b in (self.lo, self.hi):
                if b is None:
                    continue
                for x, y in ((self.v, b), (b, self.v)):
                    it.assume(ULE(x, y) == z3.Not(ULT(y, x)))
                it.assume(z3.Not(z3.And(ULT(self.v, b), ULT(b, self.v))))
                it.assume(z3.Implies(self.v == b, z3.Not(ULT(self.v, b))))
                for x, y in ((self.v, b), (b, self.v)):
                    it.assume(UEQ(x, y) == z3.And(ULE(x, y), ULE(y, x)))
        return v

    def accepts(self, it, w, f, v):
        out = []
        if self.lo is not None:
            out.append(z3.Not(it.order_V(self.v, self.lo)))
        if self.hi is not None:
            out.append(z3.Not(it.order_V(self.hi, self.v)))
        return z3.And([z3.BoolVal(True)] + out)


HARNESSES = []
for _c in list(NUMBERS) + list(TIMES):
    for _h in ('none', 'lo', 'hi', 'both'):
        HARNESSES.append(Range(_c, 'options', _h))
        if _h != 'none':
            HARNESSES.append(Range(_c, 'calls', _h))
        HARNESSES.append(Range(_c, 'calls-over', _h))
        HARNESSES.append(Range(_c, 'range-over', _h))
    HARNESSES.append(Range(_c, 'range-call'))
    if _c in NUMBERS:
        HARNESSES.append(Range(_c, 'range-option'))
for _c in ('Integer', 'Float'):
    for _h in ('lo', 'hi', 'both'):
        HARNESSES.append(Range(_c, 'options', _h, True))
