"""autorefactor.py [--kinds a,b] [--props C01,C02] [--jobs N] [--no-concrete]: behaviour-preserving rewrites of the whole package,
on which every check has to stay quiet.

Development aid (not used by any check). Each kind of rewrite is applied wherever it fits in a scratch copy of /repo; the repository's
tests have to pass on it; then every check is run on the copy."""
import ast
import concurrent.futures as cf
import copy
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['pilo/__init__.py', 'pilo/context.py', 'pilo/fields.py'] + ['pilo/source/%s.py' % x for x in (
    '__init__', 'default', 'json', 'configparser', 'mount', 'union')]
PY = '/opt/venv/bin/python'
FN = (ast.FunctionDef,)


def name(x, ctx=None):
    return ast.Name(id=x, ctx=ctx or ast.Load())


def assign(x, e):
    return ast.Assign(targets=[name(x, ast.Store())], value=e)


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Blocks(ast.NodeTransformer):
    """Rewrites every statement list by self.block(list)."""
    n = 0
    depth = 0

    def fresh(self, p='tmp'):
        Blocks.n += 1
        return '%s_%d' % (p, Blocks.n)

    def generic_visit(self, node):
        fn = isinstance(node, FN)
        self.depth += fn
        super().generic_visit(node)
        if self.depth:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(node, ast.ClassDef):
                    setattr(node, f, self.block(b) or [ast.Pass()])
        self.depth -= fn
        return node


class Temps(Blocks):
    """Results, conditions and sequences go through a local name."""

    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
                t = self.fresh('result')
                out += [assign(t, s.value), ast.Return(value=name(t))]
            elif isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                t = self.fresh('cond')
                out += [assign(t, s.test), s]
                s.test = name(t)
            elif isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
                t = self.fresh('items')
                out += [assign(t, s.iter), s]
                s.iter = name(t)
            else:
                out.append(s)
        return out


class Invert(Blocks):
    """`if c: A else: B` becomes `if not c: B else: A`; what follows an `if` that leaves goes in its else."""

    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and b[i + 1:]:
                s.orelse = self.block(b[i + 1:])
                b = b[:i + 1]
                break
        for s in b:
            if isinstance(s, ast.If) and s.orelse:
                s.test = ast.UnaryOp(op=ast.Not(), operand=s.test)
                s.body, s.orelse = s.orelse, s.body
        return b


class Flatten(Blocks):
    """`if c: ..return.. else: B` becomes the `if` followed by B; `a and b` conditions nest."""

    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                rest, s.orelse = s.orelse, []
                out += [s] + rest
            elif isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                inner = s.body
                for t in reversed(s.test.values):
                    inner = [ast.If(test=t, body=inner, orelse=[])]
                out += inner
            else:
                out.append(s)
        return out


class Comps(Blocks):
    """Comprehensions and any/all become loops."""

    def loop(self, comp, leaf):
        body = leaf
        for g in reversed(comp.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        return body

    def comp(self, e):
        t = self.fresh('acc')
        if isinstance(e, ast.ListComp):
            add = ast.Expr(ast.Call(func=ast.Attribute(value=name(t), attr='append', ctx=ast.Load()), args=[e.elt], keywords=[]))
            return t, [assign(t, ast.List(elts=[], ctx=ast.Load()))] + self.loop(e, [add])
        if isinstance(e, ast.SetComp):
            add = ast.Expr(ast.Call(func=ast.Attribute(value=name(t), attr='add', ctx=ast.Load()), args=[e.elt], keywords=[]))
            return t, [assign(t, ast.Call(func=name('set'), args=[], keywords=[]))] + self.loop(e, [add])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('any', 'all') and isinstance(e.args[0], ast.GeneratorExp) \
                and len(e.args[0].generators) == 1:
            some = e.func.id == 'any'
            g = e.args[0]
            test = g.elt if some else ast.UnaryOp(op=ast.Not(), operand=g.elt)
            return t, [assign(t, ast.Constant(not some))] + self.loop(g, [ast.If(test=test, body=[assign(t, ast.Constant(some)), ast.Break()], orelse=[])])
        return None

    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None:
                c = self.comp(s.value)
                if c:
                    s.value = name(c[0])
                    out += c[1]
            elif isinstance(s, ast.If):
                e = s.test.operand if isinstance(s.test, ast.UnaryOp) else s.test
                c = self.comp(e)
                if c:
                    out += c[1]
                    if e is s.test:
                        s.test = name(c[0])
                    else:
                        s.test.operand = name(c[0])
            out.append(s)
        return out


class Loops(Blocks):
    """Loops with an append become comprehensions; other loops count with enumerate."""

    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse:
                if len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call) \
                        and isinstance(s.body[0].value.func, ast.Attribute) and s.body[0].value.func.attr == 'append' \
                        and isinstance(s.body[0].value.func.value, ast.Name) and out and isinstance(out[-1], ast.Assign) \
                        and ast.dump(out[-1].value) == ast.dump(ast.List(elts=[], ctx=ast.Load())):
                    out[-1].value = ast.ListComp(elt=s.body[0].value.args[0], generators=[ast.comprehension(
                        target=s.target, iter=s.iter, ifs=[], is_async=0)])
                    continue
                if not (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'enumerate'):
                    s.target = ast.Tuple(elts=[name(self.fresh('at'), ast.Store()), s.target], ctx=ast.Store())
                    s.iter = ast.Call(func=name('enumerate'), args=[s.iter], keywords=[])
            out.append(s)
        return out


class IfExps(Blocks):
    """`x = a if c else b` becomes an if statement and two-armed ifs that assign or return become expressions."""

    def block(self, b):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            nxt = b[i + 1] if i + 1 < len(b) else None
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                e = s.value
                x, y = copy.deepcopy(s), copy.deepcopy(s)
                x.value, y.value = e.body, e.orelse
                out.append(ast.If(test=e.test, body=[x], orelse=[y]))
            elif isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) \
                    and isinstance(s.orelse[0], ast.Assign) and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                out.append(ast.Assign(targets=s.body[0].targets, value=ast.IfExp(test=s.test, body=s.body[0].value, orelse=s.orelse[0].value)))
            elif isinstance(s, ast.If) and len(s.body) == 1 and not s.orelse and isinstance(s.body[0], ast.Return) and isinstance(nxt, ast.Return) \
                    and s.body[0].value is not None and nxt.value is not None:
                out.append(ast.Return(value=ast.IfExp(test=s.test, body=s.body[0].value, orelse=nxt.value)))
                i += 1
            else:
                out.append(s)
            i += 1
        return out


class Compares(ast.NodeTransformer):
    """Comparisons are turned around."""
    FLIP = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Is: ast.Is, ast.IsNot: ast.IsNot}
    NEG = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            o = type(node.ops[0])
            if o in (ast.IsNot, ast.NotIn):
                return ast.UnaryOp(op=ast.Not(), operand=ast.Compare(left=node.left, ops=[self.NEG[o]()], comparators=node.comparators))
            if o in self.FLIP:
                return ast.Compare(left=node.comparators[0], ops=[self.FLIP[o]()], comparators=[node.left])
        return node


class Helpers(ast.NodeTransformer):
    """Every method's body moves to a helper method."""

    def visit_ClassDef(self, node):
        out = []
        for s in node.body:
            out.append(s)
            if not isinstance(s, FN) or len(s.body) < 2 or not s.args.args or s.args.kwonlyargs or s.name == '__new__':
                continue
            if any(isinstance(d, ast.Name) and d.id in ('classmethod', 'staticmethod', 'instance_of') for d in s.decorator_list):
                continue
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)) and s.decorator_list:
                continue
            a = s.args
            names = [x.arg for x in a.args]
            rest = [x.arg for x in (a.vararg, a.kwarg) if x]
            h = copy.deepcopy(s)
            h.name = '_%s_%s_body' % (node.name.lower(), s.name)
            h.decorator_list = []
            h.args = ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names + rest], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
            doc = s.body[:1] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
            s.body = doc + [ast.Return(value=ast.Call(func=ast.Attribute(value=name(names[0]), attr=h.name, ctx=ast.Load()),
                                                      args=[name(x) for x in names[1:] + rest], keywords=[]))]
            out.append(h)
        node.body = out
        return node


class Rename(ast.NodeTransformer):
    """Locals get other names."""

    def visit_FunctionDef(self, node):
        args = set()
        for f in ast.walk(node):
            if isinstance(f, FN + (ast.Lambda,)):
                a = f.args
                args |= {x.arg for x in a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        inner = {f.name for f in ast.walk(node) if isinstance(f, FN)}
        skip = {n for g in ast.walk(node) if isinstance(g, (ast.Global, ast.Nonlocal)) for n in g.names}
        loc = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - args - inner - skip
        loc |= {h.name for h in ast.walk(node) if isinstance(h, ast.ExceptHandler) and h.name}
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = 'the_' + n.id
            elif isinstance(n, ast.ExceptHandler) and n.name in loc:
                n.name = 'the_' + n.name
        return node


class Ctx(ast.NodeTransformer):
    """self.ctx is read once."""

    def visit_FunctionDef(self, node):
        if node.name in ('ctx', '__init__') or not node.args.args or node.args.args[0].arg != 'self':
            return node
        uses = [n for n in ast.walk(node) if isinstance(n, ast.Attribute) and n.attr == 'ctx' and isinstance(n.value, ast.Name) and n.value.id == 'self']
        if len(uses) < 2 or any(isinstance(n, FN) for n in ast.walk(node) if n is not node):
            return node

        class Sub(ast.NodeTransformer):
            def visit_Attribute(self, n):
                if n in uses:
                    return name('context_now')
                self.generic_visit(n)
                return n
        node.body = [Sub().visit(s) for s in node.body]
        k = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body.insert(k, assign('context_now', uses[0]))
        return node


class Noise(Blocks):
    """Statements that do nothing."""

    def block(self, b):
        k = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
        if any(isinstance(s, (ast.Return, ast.Assign, ast.For)) for s in b):
            b = b[:k] + [assign('unused', ast.Constant(None))] + b[k:]
        return b


PRIVATE = {}


class Private(ast.NodeTransformer):
    """Private methods and functions get other names."""

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in PRIVATE:
            n.attr += '_it'
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.name in PRIVATE:
            n.name += '_it'
        return n

    def visit_Name(self, n):
        if n.id in PRIVATE:
            n.id += '_it'
        return n


class Elif(Blocks):
    """if-chains that leave become elif chains (and the other way)."""

    def block(self, b):
        i = 0
        out = []
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b) and isinstance(b[i + 1], ast.If) and not b[i + 1].orelse:
                chain = s
                while i + 1 < len(b) and isinstance(b[i + 1], ast.If) and ends(chain.body) and not chain.orelse:
                    chain.orelse = [b[i + 1]]
                    chain = b[i + 1]
                    i += 1
            out.append(s)
            i += 1
        return out


class While(Blocks):
    """Loops over parts of self or locals known to be lists: by index."""

    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Attribute) \
                    and s.iter.attr in ('parts', 'fields', 'pathes', 'srcs_list', 'sequences', 'mappings', 'paths') \
                    and not any(isinstance(x, ast.Continue) for x in ast.walk(s)):
                i = self.fresh('i')
                out += [assign(i, ast.Constant(0)), ast.While(
                    test=ast.Compare(left=name(i), ops=[ast.Lt()], comparators=[ast.Call(func=name('len'), args=[s.iter], keywords=[])]),
                    body=[ast.Assign(targets=[s.target], value=ast.Subscript(value=s.iter, slice=name(i), ctx=ast.Load()))] + s.body + [
                        ast.AugAssign(target=name(i, ast.Store()), op=ast.Add(), value=ast.Constant(1))], orelse=[])]
            else:
                out.append(s)
        return out


KINDS = {'temps': Temps, 'invert': Invert, 'flatten': Flatten, 'comps': Comps, 'loops': Loops, 'ifexps': IfExps, 'compares': Compares,
         'helpers': Helpers, 'rename': Rename, 'ctx': Ctx, 'noise': Noise, 'private': Private, 'elif': Elif, 'while': While}


def build(kind):
    tmp = tempfile.mkdtemp(prefix='rf-')
    repo = os.path.join(tmp, 'repo')
    shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    trees = {f: ast.parse(open(os.path.join(repo, f)).read()) for f in FILES}
    if kind == 'private':
        for t in trees.values():
            for n in ast.walk(t):
                if isinstance(n, FN) and n.name.startswith('_') and not n.name.startswith('__'):
                    PRIVATE[n.name] = 1
    n = 0
    for f, t in trees.items():
        old = ast.unparse(t)
        new = ast.unparse(ast.fix_missing_locations(KINDS[kind]().visit(t)))
        n += sum(a != b for a, b in zip(old.split('\n'), new.split('\n')))
        open(os.path.join(repo, f), 'w').write(new + '\n')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', TZ='UTC', PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'))
    r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-o', 'addopts=', 'tests'], cwd=repo, env=env, capture_output=True, text=True)
    return tmp, repo, r


def check(a):
    kind, repo, p, extra = a
    t = subprocess.run(['python3-vt', os.path.join(HERE, 'check.py'), p, 'quick', '--repo', repo, '-v'] + extra, capture_output=True, text=True, cwd=HERE)
    return p, t.returncode, t.stdout


def main():
    arg = lambda n, d: sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d          # noqa: E731
    kinds = arg('--kinds', ','.join(KINDS)).split(',')
    props = arg('--props', ','.join('C%02d' % i for i in range(1, 24))).split(',')
    extra = ['--no-concrete'] if '--no-concrete' in sys.argv else []
    for k in kinds:
        tmp, repo, r = build(k)
        try:
            if r.returncode:
                print(k, 'TESTS FAIL', r.stdout[-1500:], flush=True)
                if '--keep' in sys.argv:
                    print(repo)
                continue
            bad = []
            with cf.ThreadPoolExecutor(int(arg('--jobs', 2))) as ex:
                for p, rc, out in ex.map(check, [(k, repo, p, extra) for p in props]):
                    last = [x for x in out.split('\n') if x.startswith(p + ' ')]
                    line = last[0] if last else out[-300:]
                    if rc or 'undecided' in line or 'refuted' in line:
                        bad.append(p)
                        print(k, 'VIOLATION' if rc == 1 else 'rc=%d' % rc, line[:200], flush=True)
                        for x in out.split('\n'):
                            if x.startswith('   ') and ('undecided' in x or 'refuted' in x) or x.startswith('failed') or x.startswith('failing'):
                                print('      ', x[:330], flush=True)
            print(k, 'done; not proved:', bad, flush=True)
        finally:
            if '--keep' in sys.argv:
                print(repo)
            else:
                shutil.rmtree(tmp)


if __name__ == '__main__':
    main()
