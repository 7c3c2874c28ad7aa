"""C02: rewind to an enclosing frame and restore afterwards."""
from .common import *          # noqa: F401,F403
from .common import fn         # noqa: F401

STOP = fn('stop_here', V, BOOL)
PUSH = fn('path_push', V, V, V)
POP = fn('path_pop', V, V)
DROP = fn('path_drop', V, INT, V)
SRC, SP = z3.StringVal('src'), z3.StringVal('src_path')
CTX = 'pilo.context.Context.'


class Rewind(Harness):
    """Inside: the frames above the innermost frame satisfying stop are gone and the path is the one that frame saw.
    After (normal or raising body): stack and path keys as before."""
    functions = (CTX + 'rewind', CTX + 'restore', 'pilo.context.Close.__exit__')
    covers = ('normal', 'raised')
    deadline = 200

    def __init__(self, how):
        self.how = how            # 'mixed': a new source somewhere above; 'same': none; 'top': stop at the top
        self.name = 'rewind-' + how

    def run(self, it):
        ctx, st, s = context(it)
        use_lookup_contract(it, {'src_path': lambda it, t: it.ghost['the_path']})
        n = z3.Length(s)
        j = z3.Int('j')          # the innermost frame satisfying stop
        i = z3.Int('i')
        it.assume(z3.And(0 <= j, j < n, STOP(s[j])))
        if self.how == 'top':
            it.assume(j == n - 1)
        no_stop = lambda x: z3.Implies(z3.And(x > j, x < n), z3.Not(STOP(s[x])))      # noqa: E731
        # (the quantified facts are used through their instances at loop indices)
        # m: number of frames above j before the first one that starts a new source
        m = z3.Int('m')
        top = n - 1 - j
        it.assume(z3.And(0 <= m, m <= top))
        if self.how == 'mixed':
            it.assume(z3.And(m < top, FHAS(s[j + 1 + m], SP)))
        else:
            it.assume(m == top)
        no_sp = lambda x: z3.Implies(z3.And(x >= 0, x < m), z3.Not(FHAS(s[j + 1 + x], SP)))   # noqa: E731
        inst = lambda x: [no_sp(x), no_stop(n - 1 - x), no_stop(x), no_sp(m)]      # noqa: E731
        if it.bound is not None:
            path, p0, q = self.seq_path(it, s, j, m)
            it.prefix_fns = []
        else:
            path, p0, q = self.abstract_path(it, s, j, m, n, inst)
        it.ghost['the_path'] = path
        stop = BuiltinFn('stop', lambda it, a, k: it.lift(STOP(it.to_V(a[0]))))
        seen = {}

        def body(it, a, k):
            seen['n'] = it.choose(2)
            it.prove('inside: frames above the stop frame are gone',
                     list_eq(it, ctx.attrs['stack'], z3.Extract(s, z3.IntVal(0), j + 1)))
            it.prove('inside: the path is the stop frame\'s', self.state(it, path) == q)
            if seen['n']:
                it.raise_exc('ValueError', 'body')
        ns = client(it, '''
def go(ctx, stop):
    with ctx.rewind(stop):
        body()
''', body=body)
        r = attempt(it, lambda: it.call(ns['go'], [ctx, stop]))
        c = seen.get('n')
        it.prove('the body runs', c is not None)
        it.cover('raised' if c else 'normal')
        it.prove('the scope ends as its body does', r.ok == (c == 0))
        it.prove('after: stack restored', list_eq(it, ctx.attrs['stack'], s))
        it.prove('after: path restored', self.state(it, path) == p0)

    @staticmethod
    def state(it, path):
        return path.attrs['state'].t if 'state' in path.attrs else keys_of(it, path)

    def seq_path(self, it, s, j, m):
        """Bounded mode: the path's keys as a sequence."""
        q = z3.Const('q', SEQ)
        ch = [('s', q, None)]
        x = 0
        while it.branch(z3.IntVal(x) < m):
            if x > it.bound:
                it.res.truncated = True
                raise PathEnd()
            if it.branch(FHAS(s[j + 1 + x], SRC)):
                ch.append(('e', it.lift(FGET(s[j + 1 + x], SRC))))
            x += 1
        path, _ = new_path(it, chunks=ch)
        return path, keys_of(it, path), q

    def abstract_path(self, it, s, j, m, n, inst):
        """A path observed through PUSH/POP only: at(x) is its state after the first x frames above j."""
        at = PrefixFn('at', V, z3.Const('q', V), None)
        cnt = PrefixFn('cnt', INT, z3.IntVal(0), None)
        q = at.f(z3.IntVal(0))
        frame = lambda x: s[j + 1 + x]       # noqa: E731
        at.step = lambda x: z3.If(FHAS(frame(x), SRC), PUSH(at.f(x), FGET(frame(x), SRC)), at.f(x))
        cnt.step = lambda x: cnt.f(x) + z3.If(FHAS(frame(x), SRC), 1, 0)
        # lemma: popping what the first x frames pushed leads back to q (induction on x)
        x = z3.Int('x')
        it.assume(DROP(q, z3.IntVal(0)) == q)
        it.assume(z3.Implies(cnt.f(x) >= 0, DROP(PUSH(at.f(x), FGET(frame(x), SRC)), cnt.f(x) + 1) == DROP(at.f(x), cnt.f(x))))
        lem = lambda y: z3.And(cnt.f(y) >= 0, DROP(at.f(y), cnt.f(y)) == q)      # noqa: E731
        for f in at.facts(x) + cnt.facts(x):
            it.assume(f)
        it.prove('lemma base', lem(z3.IntVal(0)))
        it.prove('lemma step', z3.Implies(z3.And(x >= 0, lem(x)), lem(x + 1)))
        it.assume(lem(m))
        p0 = at.f(m)
        cnt.extra = lambda y: inst(y) + [POP(DROP(p0, cnt.f(y))) == DROP(p0, cnt.f(y) + 1), DROP(p0, z3.IntVal(0)) == p0]

        def cands(it, l):
            k = l['k']
            st = path.attrs['state'].t
            return {'k<=n-1-j': k <= n - 1 - j, 'k<=m': k <= m, 'popped': st == DROP(p0, cnt.f(k)),
                    'restored': st == at.f(k)}
        it.extra_cands = cands
        it.prefix_fns = [at, cnt]

        def append(it, a, k):
            it.set_attr_raw(a[0], 'state', Sym(PUSH(a[0].attrs['state'].t, it.to_V(a[1]))))

        def pop(it, a, k):
            if len(a) > 1 and a[1] != -1:
                raise Unsupported('pop of an inner key')
            it.set_attr_raw(a[0], 'state', Sym(POP(a[0].attrs['state'].t)))
        cls = host_class(it, 'StackPath', None, {'append': append, 'pop': pop})
        path = it.new(cls, 'stackpath')
        path.attrs['state'] = Sym(p0)
        return path, p0, q


class NoStop(Harness):
    name = 'rewind-no-stop'
    functions = (CTX + 'rewind',)
    covers = ('done',)

    def run(self, it):
        path, p0 = new_path(it)
        ctx, st, s = context(it)
        use_lookup_contract(it, {'src_path': lambda it, t: path})
        n = z3.Length(s)
        i = z3.Int('i')
        no_stop = lambda x: z3.Implies(z3.And(x >= 0, x < n), z3.Not(STOP(s[x])))     # noqa: E731
        # (the quantified facts are used through their instances at loop indices)
        it.prefix_fns = [PrefixFn('inst', BOOL, z3.BoolVal(True), lambda x: z3.BoolVal(True),
                                  extra=lambda x: [no_stop(n - 1 - x), no_stop(x)])]
        stop = BuiltinFn('stop', lambda it, a, k: it.lift(STOP(it.to_V(a[0]))))
        r = attempt(it, lambda: it.call(it.getattr(ctx, 'rewind'), [stop]))
        it.cover('done')
        it.prove('no frame satisfies stop: RewindDidNotStop', not r.ok and it.exc_matches(
            r.exc, it.getattr(ctx, 'RewindDidNotStop')))
        it.prove('stack untouched', list_eq(it, ctx.attrs['stack'], s))
        it.prove('path untouched', keys_of(it, path) == p0)


HARNESSES = [Rewind('same'), Rewind('mixed'), Rewind('top'), NoStop()]
