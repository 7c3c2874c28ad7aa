"""C23: hooks are registered once, checked, and called with the form."""
from .fieldlib import *          # noqa: F401,F403

ASSUMPTIONS = ['inspect.getfullargspec reports a function\'s argument specification (here: seven unknown parts)']
NEED = {'compute': ('self',), 'resolve': ('self',), 'default': ('self',), 'parse': ('self', 'path'), 'munge': ('self', 'value'),
        'filter': ('self', 'value'), 'validate': ('self', 'value'), 'key_filter': ('self', 'key')}
MAKE = {
    'Field': lambda it, F: it.instantiate(F['Field'], [], {}),
    'String': lambda it, F: it.instantiate(F['String'], [], {}),
    'Integer': lambda it, F: it.instantiate(F['Integer'], [], {}),
    'Float': lambda it, F: it.instantiate(F['Float'], [], {}),
    'Decimal': lambda it, F: it.instantiate(F['Decimal'], [], {}),
    'Boolean': lambda it, F: it.instantiate(F['Boolean'], [], {}),
    'Date': lambda it, F: it.instantiate(F['Date'], [], {}),
    'Time': lambda it, F: it.instantiate(F['Time'], [], {}),
    'Datetime': lambda it, F: it.instantiate(F['Datetime'], [], {}),
    'Code': lambda it, F: it.instantiate(F['Code'], [], {}),
    'UUID': lambda it, F: it.instantiate(F['UUID'], [], {}),
    'Type': lambda it, F: it.instantiate(F['Type'], [], {}),
    'List': lambda it, F: it.instantiate(F['List'], [it.instantiate(F['Field'], [], {})], {}),
    'Tuple': lambda it, F: it.instantiate(F['Tuple'], [it.instantiate(F['Field'], [], {}), it.instantiate(F['Field'], [], {})], {}),
    'Dict': lambda it, F: it.instantiate(F['Dict'], [it.instantiate(F['Field'], [], {}), it.instantiate(F['Field'], [], {})], {}),
    'Group': lambda it, F: it.instantiate(F['Group'], [], {}),
}
FORM = '''
import pilo

class TheForm(pilo.Form):
    the_field = outer
'''


VALUE = '''
def a_function(some, value):
    return value
'''


class Hooks(Harness):
    functions = (FIELDS + 'Hook.__call__', FIELDS + 'Hook.__init__', FIELDS + 'Hook.attach', FIELDS + 'Hook.__bool__',
                 FIELDS + 'Field.__init__')
    covers = ('registered', 'refused')

    def __init__(self, hook, cls):
        self.hook, self.cls = hook, cls
        self.name = 'hook-%s-%s' % (hook, cls)

    def function(self, it, tag, mine=False):
        """A client function with an unknown argument specification, answering anything."""
        calls = []

        def f(it, a, k):
            calls.append((a, k))
            return it.lift(z3.Const('answer_%s_%d' % (tag, len(calls)), V))
        b = BuiltinFn('client_' + tag, f)
        parts = [z3.Const('spec_%s_%d' % (tag, i), V) for i in range(7)]
        if mine:
            b.spec = (NEED[self.hook], None, None, None, (), None, ())
        else:
            b.spec = tuple(it.lift(p) for p in parts)
        return b, calls, parts

    def registered(self, it, field):
        out = []
        for h in NEED:
            x = it.getattr(field, h, None)
            if isinstance(x, Obj) and x.cls.name == 'Hook':
                b = it.bool_term(x)
                if b is True or (b is not False and it.branch(b)):
                    out.append(h)
        return out

    def run(self, it):
        w = World(it)
        F = w.fields
        f = MAKE[self.cls](it, F)
        outer = f
        nest = it.choose(4)
        for i in range(nest):
            outer = it.instantiate(F['List'], [outer], {}) if i % 2 == 0 else \
                it.instantiate(F['Dict'], [it.instantiate(F['Field'], [], {}), outer], {})
        if it.choose(2):
            client(it, FORM, outer=outer)
        h = it.getattr(f, self.hook)
        before = self.registered(it, f)
        it.prove('no hook is registered at first', not before)
        target = None
        if it.choose(2):
            target = it.new(host_class(it, 'Target', None, {'__bool__': lambda it, a, k: Sym(z3.Const('target_is_true', BOOL))}), 'the-target')
            it.prove('attach gives back the hook', it.call(it.getattr(h, 'attach'), [target]) is h)
        fn_, calls, parts = self.function(it, 'f')
        r = attempt(it, lambda: it.call(h, [fn_]))
        need = (NEED[self.hook], None, None, None, (), None, ())
        good = z3.And([it.eq_term(it.lift(p), n) if not isinstance(it.eq_term(it.lift(p), n), bool) else
                       z3.BoolVal(it.eq_term(it.lift(p), n)) for p, n in zip(parts, need)])
        it.prove('registering does not call the function', not calls)
        if not it.branch(good):
            it.cover('refused')
            it.prove('another argument specification is a TypeError', not r.ok and it.exc_matches(r.exc, it.B['TypeError']))
            it.prove('and nothing is registered', not self.registered(it, f))
            # it can still be registered
            fn_, calls, parts = self.function(it, 'g', True)
            r = attempt(it, lambda: it.call(h, [fn_]))
            it.prove('a fitting function can still be registered', r.ok)
        else:
            it.prove('a fitting function is registered', r.ok)
        if not r.ok:
            return
        it.cover('registered')
        it.prove('the outermost field is given back', r.value is outer)
        it.prove('exactly this hook is registered', self.registered(it, f) == [self.hook])
        # calls, with any arguments, callables included
        for turn in (1, 2, 3):
            if turn == 1:
                args = [] if len(NEED[self.hook]) == 1 else [it.lift(z3.Const('arg', V))]
            else:
                args = [self.function(it, 'x')[0] if turn == 2 else client(it, VALUE)['a_function']]
            n = len(calls)
            r = attempt(it, lambda: it.call(h, args))
            it.prove('calling the hook does not raise', r.ok)
            it.prove('it calls the function exactly once', len(calls) == n + 1)
            if not r.ok or len(calls) != n + 1:
                return
            a, k = calls[-1]
            it.prove('with the form, or the object it is attached to', len(a) >= 1 and a[0] is (w.form if target is None else target))
            it.prove('and the given arguments', not k and len(a) == 1 + len(args) and z3.And(
                [z3.BoolVal(True)] + [same(it, x, y) if not isinstance(y, (BuiltinFn, FuncVal)) else z3.BoolVal(x is y)
                                      for x, y in zip(a[1:], args)]))
            tag = fn_.name.split('_')[1]
            it.prove('and returns its result', it.to_V(r.value) == z3.Const('answer_%s_%d' % (tag, len(calls)), V))
        w.restored()


HARNESSES = [Hooks(h, 'Field') for h in NEED if h != 'key_filter'] + [Hooks('key_filter', 'Dict')] + \
            [Hooks(h, c) for c in MAKE if c != 'Field' for h in ('parse', 'validate', 'munge', 'filter', 'compute', 'default', 'resolve')
             if not (c == 'Group' and h == 'default') and (h in ('parse', 'validate') or c in ('Dict', 'List', 'Group', 'Tuple'))]
