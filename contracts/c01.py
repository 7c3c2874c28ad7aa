"""C01: context scopes nest and unwind exactly."""
from .common import *          # noqa: F401,F403
from .common import fn         # noqa: F401

CTX = 'pilo.context.Context.'


class Lookup(Harness):
    """ctx.name is the value of the innermost frame binding name; AttributeError when none does."""
    functions = (CTX + '__getattr__',)
    covers = ('found', 'missing')

    def __init__(self, found):
        self.found = found
        self.name = 'lookup-' + ('found' if found else 'missing')
        self.covers = ('done',)

    def run(self, it):
        ctx, st, s = context(it)
        k = z3.Const('name', STR)
        n = z3.Length(s)
        i = z3.Int('i')
        j = z3.Int('j')
        if self.found:
            it.assume(z3.And(0 <= j, j < n, FHAS(s[j], k)))
            none_above = lambda x: z3.Implies(z3.And(x > j, x < n), z3.Not(FHAS(s[x], k)))     # noqa: E731
        else:
            none_above = lambda x: z3.Implies(z3.And(x >= 0, x < n), z3.Not(FHAS(s[x], k)))    # noqa: E731
        # (the quantified precondition is used through its instances at loop indices)
        inst = PrefixFn('inst', BOOL, z3.BoolVal(True), lambda x: z3.BoolVal(True),
                        extra=lambda x: [none_above(n - 1 - x), none_above(x)])
        it.prefix_fns = [inst]
        if self.found:
            it.extra_cands = lambda it, l: {'k<=n-1-j': l['k'] <= n - 1 - j, 'k<=j': l['k'] <= j}
        f = ctx.cls.lookup('__getattr__')
        if f is MISSING:
            raise Unsupported('Context has no __getattr__')
        r = attempt(it, lambda: it.call(f, [ctx, Sym(k)]))
        it.cover('done')
        if self.found:
            it.prove('a bound name is found', r.ok)
            if r.ok:
                it.prove('the innermost binding wins', it.to_V(r.value) == FGET(s[j], k))
        else:
            it.prove('an unbound name raises', not r.ok)
            if not r.ok:
                it.prove('an unbound name raises AttributeError',
                         it.exc_matches(r.exc, it.B['AttributeError']))
        it.prove('lookup leaves the stack alone', list_eq(it, ctx.attrs['stack'], s))


class ValuesFor(Harness):
    functions = (CTX + 'values_for',)
    covers = ('done',)

    def __init__(self, key):
        self.key = key
        self.name = 'values_for-' + key

    def run(self, it):
        ctx, st, s = context(it)
        k = z3.StringVal(self.key)
        pf = PrefixFn('vals', SEQ, z3.Empty(SEQ), None)
        pf.step = lambda x: z3.If(FHAS(s[x], k), z3.Concat(pf.f(x), z3.Unit(FGET(s[x], k))), pf.f(x))
        it.prefix_fns = [pf]
        r = it.call(it.getattr(ctx, 'values_for'), [self.key])
        it.cover('done')
        it.prove('every binding of the name, outermost first', it.list_term(r) == pf.f(z3.Length(s)))


class Body(Exception):
    pass


class Scope(Harness):
    """with ctx.push(...): body  restores stack and path for a normal and a raising body."""
    functions = (CTX + 'push', CTX + 'restore', 'pilo.context.Close.__exit__', 'pilo.context.Close.__enter__')

    def __init__(self, kind):
        self.kind = kind
        self.name = 'scope-' + kind
        if kind == 'reset':
            self.functions = (CTX + 'reset', CTX + 'restore')
        self.covers = ('normal', 'raised')

    def run(self, it):
        path, p0 = new_path(it)
        ctx, st, s = context(it)
        use_lookup_contract(it, {'src_path': lambda it, t: path})
        it.assume(BHAS(s, z3.StringVal('src_path')))
        it.assume(BHAS(s, z3.StringVal('src')))
        src_cls = host_class(it, 'ClientSource', [member(it, 'pilo.source', 'Source')], {})
        newp, q0 = new_path(it, 'path1')
        src_cls.ns['path'] = BuiltinFn('path', lambda it, a, k: newp)
        src = it.new(src_cls)
        key = {'str': Sym(z3.Const('key', STR)), 'int': Sym(z3.Const('idx', INT))}.get(self.kind, src)
        val = Sym(z3.Const('val', V))
        kind = self.kind
        seen = {}

        def body(it, a, k):
            seen['n'] = it.choose(3)
            cpath = it.getattr(ctx, 'src_path')
            if kind in ('str', 'int'):
                it.prove('inside: same path', cpath is path)
                it.prove('inside: path extended by the key',
                         keys_of(it, path) == z3.Concat(p0, z3.Unit(it.to_V(key))))
                it.prove('inside: src is the key', same(it, it.getattr(ctx, 'src'), key))
            elif kind == 'source':
                it.prove('inside: fresh path of the source', cpath is newp)
                it.prove('inside: src is the source', same(it, it.getattr(ctx, 'src'), src))
                it.prove('inside: outer path untouched', keys_of(it, path) == p0)
            elif kind == 'reset':
                it.prove('inside: no path', cpath is None)
                it.prove('inside: no source', it.getattr(ctx, 'src') is None)
                it.prove('inside: outer path untouched', keys_of(it, path) == p0)
            else:
                it.prove('inside: same path', cpath is path)
                it.prove('inside: path unchanged', keys_of(it, path) == p0)
                it.prove('inside: source unchanged',
                         same(it, it.getattr(ctx, 'src'), it.lift(BGET(s, z3.StringVal('src')))))
            if kind != 'reset':
                it.prove('inside: variable visible', same(it, it.getattr(ctx, 'color'), val))
                it.prove('inside: other variables unchanged',
                         same(it, it.getattr(ctx, 'shape', None),
                              it.lift(z3.If(BHAS(s, z3.StringVal('shape')), BGET(s, z3.StringVal('shape')), V.none))))
            if seen['n'] == 1:
                it.raise_exc('ValueError', 'body')
            if seen['n'] == 2:
                it.raise_exc('KeyboardInterrupt')
        ns = client(it, '''
def nested(ctx, src, key, val):
    with ctx.push(color=val):
        with ctx(src=key):
            pass
        with ctx(src=src, color=1):
            with ctx.push(src='x'):
                pass

def push_src(ctx, src, key, val):
    with ctx.push(src=key, color=val):
        body()
        nested(ctx, src, 'k', val)

def push_var(ctx, src, key, val):
    with ctx(color=val):
        body()
        nested(ctx, src, 'k', val)

def reset(ctx, src, key, val):
    with ctx.reset():
        body()
        with ctx.push(color=val):
            with ctx.push(src=src):
                pass
''', body=body)
        f = {'reset': 'reset', 'var': 'push_var'}.get(kind, 'push_src')
        r = attempt(it, lambda: it.call(ns[f], [ctx, src, key, val]))
        n = seen.get('n')
        it.prove('the body runs', n is not None)
        it.cover('normal' if n == 0 else 'raised')
        it.prove('the scope ends as its body does', r.ok == (n == 0))
        if n and not r.ok:
            it.prove('the body\'s exception propagates', r.exc.cls is it.B['ValueError' if n == 1 else 'KeyboardInterrupt'])
        it.prove('after: stack restored', list_eq(it, ctx.attrs['stack'], s))
        it.prove('after: path restored', keys_of(it, path) == p0)
        it.prove('after: inner path restored', keys_of(it, newp) == q0)


HARNESSES = [Lookup(True), Lookup(False), ValuesFor('color'), ValuesFor('items')] + [Scope(k) for k in ('str', 'int', 'source', 'var', 'reset')]
