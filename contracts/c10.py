"""C10: list and dict size and required-key limits are exact."""
from .valid import *          # noqa: F401,F403
from .c11 import ListOf

ASSUMPTIONS = ['the keys of a dict and the required keys are hashable, equal exactly when they are the same value']


class Lists(Validation):
    functions = Validation.functions + (FIELDS + 'List.__init__', FIELDS + 'List._validate', FIELDS + 'List.min', FIELDS + 'List.max',
                                        FIELDS + 'List.range')

    def __init__(self, way):
        self.way = way
        self.name = 'list-' + way
        if way in ('none', 'over-none'):
            self.covers = ('accepted', 'null')

    def build(self, it, w):
        lo, hi = z3.Const('lo', INT), z3.Const('hi', INT)
        kw = {}
        way = self.way
        if way == 'length':
            kw['length'] = (Sym(lo), Sym(hi))
        if way.startswith('over-'):
            # limits given before, which the later calls replace
            kw['min_length'], kw['max_length'] = Sym(z3.Const('old lo', INT)), Sym(z3.Const('old hi', INT))
        self.lo = lo if way in ('over-hi-none', 'over-both', 'over-range', 'length', 'length-list', 'options', 'calls', 'range', 'min_length', 'min') else None
        self.hi = hi if way in ('over-lo-none', 'over-both', 'over-range', 'length', 'length-list', 'options', 'calls', 'range', 'max_length', 'max') else None
        if way == 'length-list':
            kw['length'] = it.list_of([Sym(lo), Sym(hi)])
        if way in ('options', 'min_length'):
            kw['min_length'] = Sym(lo)
        if way in ('options', 'max_length'):
            kw['max_length'] = Sym(hi)
        f = it.instantiate(w.fields['List'], [it.instantiate(w.fields['Field'], [], {})], kw)
        call = lambda m, *a: it.call(it.getattr(f, m), list(a))       # noqa: E731
        if way in ('calls', 'min'):
            call('min', Sym(lo))
        if way in ('calls', 'max'):
            call('max', Sym(hi))
        if way == 'range':
            call('range', Sym(lo), Sym(hi))
        if way == 'over-range':
            call('range', Sym(lo), Sym(hi))
        elif way.startswith('over-'):
            call('max', None if self.hi is None else Sym(hi))
            call('min', None if self.lo is None else Sym(lo))
        return f

    def value(self, it, w, f):
        self.items = z3.Const('items', SEQ)
        return it.new_list([('s', self.items, None)], 'items')

    def accepts(self, it, w, f, v):
        it.prove('the list is not touched', it.list_term(v) == self.items)
        n = z3.Length(self.items)
        return z3.And([z3.BoolVal(True)] + ([n >= self.lo] if self.lo is not None else []) + (
            [n <= self.hi] if self.hi is not None else []))


class Dicts(Validation):
    functions = Validation.functions + (FIELDS + 'Dict.__init__', FIELDS + 'Dict._validate')

    def __init__(self, required, limit):
        self.required, self.limit = required, limit
        self.name = 'dict-%s-required%s' % (required, '-max' if limit else '')
        if not required and not limit:
            self.covers = ('accepted', 'null')

    def build(self, it, w):
        kw = {}
        self.req = [z3.Const('required%d' % i, V) for i in range(self.required)] if self.required != 'many' else []
        if self.req:
            kw['required_keys'] = it.list_of([it.lift(k) for k in self.req])
        elif self.required:
            self.all = z3.Const('required_keys', SEQ)
            kw['required_keys'] = it.new_list([('s', self.all, None)], 'required')
        if self.limit:
            self.hi = z3.Const('hi', INT)
            it.assume(self.hi >= 1)
            kw['max_keys'] = Sym(self.hi)
        F = w.fields['Field']
        return it.instantiate(w.fields['Dict'], [it.instantiate(F, [], {}), it.instantiate(F, [], {})], kw)

    def value(self, it, w, f):
        d = it.new_dict(label='value')
        self.dom, self.val = z3.Const('dom', SETS), z3.Const('val', MAPS)
        self.keys = z3.Const('keys', SEQ)
        d.data = DictData(dom=self.dom, val=self.val, keyseq=self.keys)
        if self.required == 'many':
            # ghost: one of the first k required keys is missing
            self.miss = PrefixFn('miss', BOOL, z3.BoolVal(False), lambda k: z3.Or(self.miss.f(k), z3.Not(z3.Select(self.dom, self.all[k]))))
            it.prefix_fns.append(self.miss)
            it.assume(z3.Not(self.miss.f(z3.IntVal(0))))

            def cands(it, loop):
                return dict(('missing ' + n, it.set_nonempty_term(z3.SetDifference(t, self.dom)) == self.miss.f(loop['k']))
                            for n, t in loop['cur'].items() if t.sort() == SETS)
            it.extra_cands = cands
        return d

    def accepts(self, it, w, f, v):
        dom, val = it.dict_arrays(v)
        it.prove('the dict is not touched', z3.And(dom == self.dom, val == self.val))
        n = it.length(v)
        out = [z3.Select(self.dom, k) for k in self.req]
        if self.required == 'many':
            out.append(z3.Not(self.miss.f(z3.Length(self.all))))
        if self.limit:
            out.append(it.int_term(n) <= self.hi)
        return z3.And([z3.BoolVal(True)] + out)


class KeptItems(ListOf):
    """Mapping a list with limits: it is the kept items that are counted."""
    functions = ListOf.functions + (FIELDS + 'List._validate',)

    def __init__(self, bare, lo, hi):
        ListOf.__init__(self, bare)
        self.has = lo, hi
        self.name = 'kept-items%s%s%s' % ('-bare' if bare else '', '-min' if lo else '', '-max' if hi else '')
        self.covers = ('accepted', 'rejected', 'other')

    def build(self, it, w):
        f = ListOf.build(self, it, w)
        lo, hi = z3.Const('lo', INT), z3.Const('hi', INT)
        if self.has[0]:
            it.set_attr_raw(f, 'min_length', Sym(lo))
        if self.has[1]:
            it.set_attr_raw(f, 'max_length', Sym(hi))
        self.lo, self.hi = lo if self.has[0] else None, hi if self.has[1] else None
        return f

    def outcome(self, it, w, f, at, value):
        seq = it.branch(P_SEQOK(at))
        if seq:
            kept, faults = self.kept.f(P_SEQLEN(at)), self.faults.f(P_SEQLEN(at))
        elif self.bare:
            v = self.E.value(self.e, at)
            kept, faults = z3.Unit(v), self.E.faults(self.e, at)
            if it.branch(w.is_marker(v)):
                return
        else:
            it.cover('other')
            self.one_invalid(it, w, f, at, value)
            return
        n = z3.Length(kept)
        if not seq:
            it.cover('other')
        if it.branch(z3.And([z3.BoolVal(True)] + ([n >= self.lo] if self.lo is not None else []) + ([n <= self.hi] if self.hi is not None else []))):
            it.cover('accepted')
            ok = isinstance(value, Obj) and isinstance(value.data, ListData)
            it.prove('a list of enough and not too many kept items is accepted', ok)
            if ok:
                it.prove('as it is', it.list_term(value) == kept)
            self.exactly(it, w, faults)
            return
        it.cover('rejected')
        it.prove('no value', w.no_value(value))
        ch = w.errors.data.chunks
        it.prove('one error after the items\' ones', len(ch) >= 1 and ch[-1][0] == 'e' and it.list_term(it.new_list(ch[:-1])) == z3.Concat(w.e0, faults))
        if ch and ch[-1][0] == 'e':
            w.expect_error(ch[-1][1], 'Invalid', f, at)


HARNESSES = [KeptItems(b, *x) for b in (False, True) for x in ((True, False), (False, True), (True, True))] + [Lists(w) for w in ('none', 'length', 'length-list', 'options', 'min_length', 'max_length', 'calls', 'min', 'max', 'range', 'over-both', 'over-range',
                               'over-lo-none', 'over-hi-none', 'over-none')] + [
    Dicts(r, m) for r in (0, 1, 2, 'many') for m in (False, True)]
