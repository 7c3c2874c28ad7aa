"""C13: errors are reported completely and in field order."""
from .forms import *          # noqa: F401,F403
from .c17 import Sub

ASSUMPTIONS = ['FormError\'s text is some text (its wording is not specified)', 'tags are equal exactly when they are the same value']
FIRST = z3.Const('first_faulty', INT)


def any_text(it):
    """FormError's message: some text."""
    FE = member(it, 'pilo.fields', 'FormError')
    FE.ns['message'] = getter(lambda it, o: it.lift(z3.Const('message_of_%d' % o.oid, STR)))


class Reports(FormMap):
    functions = FormMap.functions + (FIELDS + 'Errors.invalid', FIELDS + 'RaiseErrors.__call__', FIELDS + 'CollectErrors.__call__',
                                     FIELDS + 'Form.__init__', FIELDS + 'FormError.__init__')

    def __init__(self, mode, error, tags=None):
        self.mode, self.error, self.tags = mode, error, tags
        self.name = '%s-%s%s' % (mode, error, '-tags' if tags else '')
        self.covers = ('clean', 'faulty')

    def run(self, it):
        w = self.setup(it)
        any_text(it)
        tags, selected = self.make_tags(it, self.tags)
        kw = {}
        if self.error != 'new':
            kw['error'] = self.error
        if tags is not None:
            kw['tags'] = tags
        src = it.new(it.ghost['path_src_cls'], 'given-source')
        it.embedded.add(src.oid)
        if self.mode == 'root':
            here, at = z3.Empty(SEQ), z3.Unit(it.to_V(src))
        else:
            here = at = w.p0
        it.assume(P_MAPOK(here))
        self.spec(it, at, selected, False)
        fs = self.fields
        faulty = lambda k: z3.And(selected(fs[k]), z3.Length(FAULTS(fs[k], at, w.none)) > 0)          # noqa: E731
        fc = self.E.fault_cls()

        def first(k):
            """FIRST is the index of the first field with errors, or their number."""
            return [FIRST >= 0, FIRST <= self.n, z3.Implies(FIRST < self.n, faulty(FIRST)),
                    z3.Implies(z3.And(k >= 0, k < FIRST), z3.Not(faulty(k)))]
        any_ = PrefixFn('any_fault', BOOL, z3.BoolVal(False), lambda k: z3.Or(any_.f(k), faulty(k)), first)
        it.prefix_fns.append(any_)
        it.prefix_facts(z3.IntVal(0), None)
        base = it.extra_cands

        def cands(it, loop):
            out = base(it, loop)
            k = loop['k']
            out['first'] = k <= FIRST
            out['any'] = any_.f(k) == (z3.Length(self.faults.f(k)) > 0)
            out['quiet'] = any_.f(k) == (k > FIRST)
            for n, t in loop['cur'].items():
                if t.sort() == SEQ:
                    for m, s in (('all', self.faults.f(self.n)),):
                        out['copied %s %s' % (m, n)] = z3.Implies(k <= z3.Length(s), t == z3.SubSeq(s, 0, k))
            return out
        it.extra_cands = cands
        if self.error == 'new':
            made = []
            self.E.form = None

            def go():
                return it.instantiate(self.cls, [src], {})
        else:
            if self.mode == 'root':
                kw['src'] = src

            def go():
                return it.call(it.getattr(self.form, 'map'), [], kw)
        r = attempt(it, go)
        w.restored()
        all_ = self.faults.f(self.n)
        outer = it.list_term(w.errors)
        clean = not it.branch(FIRST < self.n)
        it.cover('clean' if clean else 'faulty')
        if self.error == 'collect':
            it.prove('collecting does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
            if not r.ok:
                return
            ok = isinstance(r.value, Obj) and isinstance(r.value.data, ListData)
            it.prove('a list is returned', ok)
            if ok:
                it.prove('of exactly the fields\' errors, in order', it.list_term(r.value) == all_)
            it.prove('the enclosing form gets exactly these too' if self.mode == 'nested' else 'nothing else is recorded',
                     outer == (z3.Concat(w.e0, all_) if self.mode == 'nested' else w.e0))
            return
        if clean:
            it.prove('without errors it completes', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
            it.prove('and gives back the form', r.ok and (r.value is self.form if self.error == 'raise' else
                                                         isinstance(r.value, Obj) and self.cls in r.value.cls.mro))
            it.prove('nothing is recorded', outer == w.e0)
            return
        FE = member(it, 'pilo.fields', 'FormError')
        it.prove('errors are raised as a FormError', not r.ok and isinstance(r.exc, Obj) and FE in r.exc.cls.mro,
                 info='%s' % (r.value if r.ok else r.exc))
        if r.ok:
            return
        carried = it.getattr(r.exc, 'field_errors')
        t = it.list_term(it.list_of(list(carried))) if isinstance(carried, tuple) else it.list_term(carried)
        if self.error == 'new':
            it.prove('carrying exactly the fields\' errors, in order', t == all_)
        else:
            it.prove('carrying field errors, of the first field that has any', z3.And(
                z3.Length(t) > 0, t[0] == FAULTS(fs[FIRST], at, w.none)[0]))


KINDS = """
import pilo

class TheirMissing(pilo.fields.Missing):
    pass

class TheirInvalid(pilo.fields.Invalid):
    pass
"""


class Kinds(Harness):
    """What an error is: of the class the context binds for it, else pilo's, for the field being mapped, at its path."""
    covers = ('recorded',)

    def __init__(self, kind, bound):
        self.kind, self.bound_ = kind, bound
        self.name = 'error-%s-%s' % (kind, bound)
        self.functions = (FIELDS + 'Errors.' + kind.lower(), FIELDS + kind + '.__init__', FIELDS + 'FieldError.__init__', FIELDS + 'CollectErrors.__call__')

    def run(self, it):
        w = World(it)
        ns = client(it, KINDS)
        f = w.attach(it.instantiate(w.fields['Integer'], [], {}))
        it.setitem(w.top, 'field', f)
        if self.bound_ in ('it', 'both'):
            it.setitem(w.top, self.kind, ns['Their' + self.kind])
        other = {'Missing': 'Invalid', 'Invalid': 'Missing'}[self.kind]
        if self.bound_ in ('other', 'both'):
            it.setitem(w.top, other, ns['Their' + other])
        args = [Sym(z3.Const('violation', STR))] if self.kind == 'Invalid' else []
        r = attempt(it, lambda: it.call(it.getattr(w.errors, self.kind.lower()), args))
        w.restored()
        it.prove('it does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        new = w.new_errors()
        it.prove('one error is recorded after the others', new is not None and len(new) == 1)
        if not new or len(new) != 1:
            return
        it.cover('recorded')
        e = new[0]
        it.prove('of the class bound for it, else of pilo\'s', isinstance(e, Obj) and e.cls is (
            ns['Their' + self.kind] if self.bound_ in ('it', 'both') else w.fields[self.kind]))
        it.prove('for the field', it.getattr(e, 'field') is f)
        if args:
            it.prove('with its violation', same(it, it.getattr(e, 'violation'), args[0]))


HARNESSES = [Kinds(k, b) for k in ('Missing', 'Invalid') for b in ('none', 'it', 'other', 'both')] + [Reports('nested', 'collect'), Reports('root', 'collect'), Reports('root', 'collect', ('list', 1)), Reports('nested', 'collect', ('set', 1)),
             Reports('nested', 'raise'), Reports('root', 'raise'), Reports('root', 'new'), Sub(False), Sub(True)]
