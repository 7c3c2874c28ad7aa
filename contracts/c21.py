"""C21: group fields collect exactly the matching keys."""
from .c11 import *          # noqa: F401,F403

ASSUMPTIONS = ['the keys of a mapping are texts', 'matching a pattern is a function of the pattern and the text']
FITS = fn('pattern_fits', V, STR, BOOL)
MATCH = fn('pattern_match', V, STR, V)
START, END, PART = fn('match_start', V, V, INT), fn('match_end', V, V, INT), fn('match_group', V, V, V)


def of_match(it, m, name):
    """What a match tells of itself: where a group of it is, what the group holds (a match is at the start of the key)."""
    def where(f):
        def at(it, a, k):
            g = it.to_V(a[0] if a else 0)
            it.assume(z3.And(END(m, g) >= START(m, g), START(m, g) >= -1, START(m, V.int(z3.IntVal(0))) == 0))
            return Sym(f(m, g))
        return at

    def group(it, a, k):
        t = PART(m, it.to_V(a[0] if a else 0))
        it.assume(z3.Or(V.is_str(t), V.is_none(t)))
        it.assume(z3.Implies(V.is_str(t), z3.Length(V.s(t)) == END(m, it.to_V(a[0] if a else 0)) - START(m, it.to_V(a[0] if a else 0))))
        if not a or a[0] == 0:
            it.assume(V.is_str(t))
        return it.narrow(it.lift(t))
    if name in ('start', 'end'):
        return BuiltinFn('Match.' + name, where(START if name == 'start' else END))
    if name == 'span':
        return BuiltinFn('Match.span', lambda it, a, k: (where(START)(it, a, k), where(END)(it, a, k)))
    if name == 'group':
        return BuiltinFn('Match.group', group)
    return MISSING


class Groups(Container):
    functions = Container.functions + (FIELDS + 'Group.__init__', FIELDS + 'Group._match', FIELDS + 'Group._parse', FIELDS + 'Group._resolve')

    def __init__(self, kinds, default=False):
        self.kinds, self.default = kinds, default
        self.name = 'group-%s%s' % (kinds or 'empty', '-default' if default else '')
        self.covers = ('some', 'none', 'other') if kinds else ('none', 'other')

    def prepare(self, it, w):
        self.E = Elements(it, w)
        it.ghost['key_cls'] = it.B['str']

        def match(it, a, k):
            p, key = it.to_V(a[0]), it.str_term(a[1])
            if not it.branch(FITS(p, key)):
                return None
            m = MATCH(p, key)
            it.assume(z3.And(V.is_ref(m), z3.Not(w.is_marker(m)), TRUTH(m)))
            return it.lift(m)
        it.ghost['getattr_opaque'] = lambda it, o, name: of_match(it, o.t, name)
        self.pattern = host_class(it, 'UnknownPattern', None, {'match': match})

    def place(self, w, key):
        return w.p0          # a group reads the keys of where it is

    def build(self, it, w):
        entries, self.entries = [], []
        for i, c in enumerate(self.kinds):
            e = self.E.new('e%d' % i)
            text = z3.Const('entry%d' % i, STR)
            if c == 'b':
                it.set_attr_raw(e, 'src', Sym(text))
                entries.append(e)
            elif c == 's':
                entries.append((Sym(text), e))
            else:
                p = it.new(self.pattern, 'p%d' % i)
                it.embedded.add(p.oid)
                entries.append((p, e))
                text = p
            self.entries.append((text, e))
        if it.choose(2) and entries:
            entries = [it.list_of(entries)]
        kw = {}
        if self.default:
            self.dv = z3.Const('default_value', V)
            d = it.lift(self.dv)
            it.assume(z3.Not(z3.Or(w.is_marker(self.dv), z3.And(V.is_ref(self.dv), CALLABLE(self.dv)), isa(it, d, it.B['type']),
                                   isa(it, d, w.fields['Hook']))))
            kw['default'] = d
        return it.instantiate(w.fields['Group'], entries, kw)

    def specify(self, it, w, f, at):
        ks = P_KEYS(at)
        text = lambda k: V.s(ks[k])          # noqa: E731
        inner = lambda k: z3.Concat(at, z3.Unit(ks[k]))          # noqa: E731

        def fits(e, k):
            return e == text(k) if not isinstance(e, Obj) else FITS(it.to_V(e), text(k))

        def first(k, f, other):
            """f(entry, field) of the first entry fitting key k."""
            out = other
            for t, e in reversed(self.entries):
                out = z3.If(fits(t, k), f(t, e), out)
            return out
        empty = z3.Empty(SEQ)
        hit = lambda k: first(k, lambda t, e: z3.BoolVal(True), z3.BoolVal(False))          # noqa: E731
        val = lambda k: first(k, lambda t, e: self.E.value(e, inner(k)), w.none)          # noqa: E731
        cap = lambda k: first(k, lambda t, e: MATCH(it.to_V(t), text(k)) if isinstance(t, Obj) else V.none, V.none)          # noqa: E731
        err = lambda k: first(k, lambda t, e: self.E.faults(e, inner(k)), empty)          # noqa: E731
        self.kept = PrefixFn('kept', SEQ, empty, lambda k: z3.If(w.is_marker(val(k)), self.kept.f(k), z3.Concat(
            self.kept.f(k), z3.Unit(V.trip(ks[k], cap(k), val(k))))))
        self.faults = PrefixFn('all_faults', SEQ, empty, lambda k: z3.Concat(self.faults.f(k), err(k)))
        self.count = PrefixFn('matches', INT, z3.IntVal(0), lambda k: self.count.f(k) + z3.If(hit(k), 1, 0))
        self.any = PrefixFn('any_match', BOOL, z3.BoolVal(False), lambda k: z3.Or(self.any.f(k), hit(k)))
        it.prefix_fns += [self.kept, self.faults, self.count, self.any]
        it.extra_cands = lambda it, loop: {'any': self.any.f(loop['k']) == (self.count.f(loop['k']) > 0),
                                           'count': self.count.f(loop['k']) >= 0,
                                           'quiet': z3.Or(self.any.f(loop['k']), z3.Length(self.faults.f(loop['k'])) == 0)}

    def outcome(self, it, w, f, at, value):
        if not it.branch(P_MAPOK(at)):
            it.cover('other')
            self.one_invalid(it, w, f, at, value)
            return
        n = z3.Length(P_KEYS(at))
        if it.branch(self.any.f(n)):
            it.cover('some')
            ok = isinstance(value, Obj) and isinstance(value.data, ListData) and value.cls is it.B['list']
            it.prove('the result is a list', ok)
            if ok:
                it.prove('of exactly the matching keys, their matches and values, in order', it.list_term(value) == self.kept.f(n))
            self.exactly(it, w, self.faults.f(n))
            return
        it.cover('none')
        if it.branch(w.ignore_default):
            it.prove('no value', w.no_value(value))
            return
        self.exactly(it, w, z3.Empty(SEQ))
        if self.default:
            it.prove('the default is the value', it.to_V(value) == self.dv)
            return
        ok = isinstance(value, Obj) and isinstance(value.data, ListData) and value.cls is it.B['list']
        it.prove('the result is a list', ok)
        if ok:
            it.prove('an empty one', z3.Length(it.list_term(value)) == 0)


FIRST = fn('first_entry', STR, INT)


class ManyEntries(Groups):
    """Any number of (text or pattern, field) entries."""

    def __init__(self):
        Groups.__init__(self, 'sp')
        self.name = 'group-any-number-of-entries'
        self.covers = ('some', 'none', 'other')

    def prepare(self, it, w):
        Groups.prepare(self, it, w)
        self.ks = []

        def opaque(it, o, name):
            if name == 'match':
                return BuiltinFn('match', lambda it, a, k: it.call(self.pattern.lookup('match'), [o] + list(a)))
            if name in ('map', '__call__', '_map'):
                return BuiltinFn('map', lambda it, a, k: it.call(self.E.cls.lookup(name), [o] + list(a), k))
            return of_match(it, o.t, name)
        it.ghost['getattr_opaque'] = opaque

    def fits(self, e, text):
        x = V.fst(e)
        return z3.If(V.is_str(x), V.s(x) == text, FITS(x, text))

    def build(self, it, w):
        self.all = all_ = z3.Const('entries', SEQ)
        self.n = z3.Length(all_)

        def extra(k):
            e = all_[k]
            return [z3.Implies(z3.And(k >= 0, k <= self.n), self.pre.f(k) == z3.SubSeq(all_, 0, k)),
                    z3.Implies(z3.And(k >= 0, k < self.n), z3.And(
                        V.is_pair(e), z3.Or(V.is_str(V.fst(e)), V.is_ref(V.fst(e))), V.is_ref(V.snd(e))))]
        self.pre = PrefixFn('entries_before', SEQ, z3.Empty(SEQ), lambda k: z3.Concat(self.pre.f(k), z3.Unit(all_[k])), extra)
        it.prefix_fns.append(self.pre)
        return it.instantiate(w.fields['Group'], [it.new_list([('s', all_, None)], 'entries')], {})

    def specify(self, it, w, f, at):
        ks = P_KEYS(at)
        text = lambda k: V.s(ks[k])          # noqa: E731
        inner = lambda k: z3.Concat(at, z3.Unit(ks[k]))          # noqa: E731
        empty = z3.Empty(SEQ)
        entry = lambda k: self.all[FIRST(text(k))]          # noqa: E731
        hit = lambda k: FIRST(text(k)) < self.n          # noqa: E731
        val = lambda k: z3.If(hit(k), MAPPED(V.snd(entry(k)), inner(k), w.none), w.none)          # noqa: E731
        cap = lambda k: z3.If(V.is_str(V.fst(entry(k))), V.none, MATCH(V.fst(entry(k)), text(k)))          # noqa: E731
        err = lambda k: z3.If(hit(k), FAULTS(V.snd(entry(k)), inner(k), w.none), empty)          # noqa: E731

        def first(k):
            """FIRST(text) is the index of the first entry fitting the text, or their number."""
            self.ks.append(k)
            out = []
            for a in self.ks:
                t = text(a)
                z = FIRST(t)
                out += [z >= 0, z <= self.n, z3.Implies(z < self.n, self.fits(self.all[z], t))]
                for b in self.ks:
                    out.append(z3.Implies(z3.And(b >= 0, b < z), z3.Not(self.fits(self.all[b], t))))
            return out
        self.kept = PrefixFn('kept', SEQ, empty, lambda k: z3.If(w.is_marker(val(k)), self.kept.f(k), z3.Concat(
            self.kept.f(k), z3.Unit(V.trip(ks[k], cap(k), val(k))))), first)
        self.faults = PrefixFn('all_faults', SEQ, empty, lambda k: z3.Concat(self.faults.f(k), err(k)))
        self.count = PrefixFn('matches', INT, z3.IntVal(0), lambda k: self.count.f(k) + z3.If(hit(k), 1, 0))
        self.any = PrefixFn('any_match', BOOL, z3.BoolVal(False), lambda k: z3.Or(self.any.f(k), hit(k)))
        it.prefix_fns += [self.kept, self.faults, self.count, self.any]

        def cands(it, loop):
            k = loop['k']
            out = {'any': self.any.f(k) == (self.count.f(k) > 0), 'count': self.count.f(k) >= 0,
                   'quiet': z3.Or(self.any.f(k), z3.Length(self.faults.f(k)) == 0)}
            for nm, x in sorted(loop['sc'].vars.items()):
                x = it.narrow(x) if isinstance(x, Sym) else x
                if isinstance(x, Sym) and x.kind == 'Str':
                    out['first of ' + nm] = k <= FIRST(x.t)
            return out
        it.extra_cands = cands


HARNESSES = [Groups(k) for k in ('', 's', 'b', 'p', 'sp', 'ps', 'ss', 'pp', 'bs', 'spb', 'pbs', 'ppp', 'sss')] + [Groups('sp', True), ManyEntries()]
