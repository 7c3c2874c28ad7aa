"""automut.py OUTDIR [--seed N] [--n N] [--jobs N]: random small edits of /repo's source, which of them the checks' executions notice.

Development aid (not used by any check). Each edit is applied to a scratch copy; edits that fail the repository's tests are dropped;
the others are run against the concrete side of every check, and those not noticed are listed (many change no behaviour)."""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['pilo/context.py', 'pilo/fields.py'] + ['pilo/source/%s.py' % x for x in ('__init__', 'default', 'json', 'configparser', 'mount', 'union')]
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}


def edits(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for x in lines:
        offs.append(offs[-1] + len(x) + 1)

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    out = []

    def add(n, new, kind):
        a, b = span(n)
        out.append((a, b, new, kind))
    for n in ast.walk(tree):
        seg = lambda m: src[slice(*span(m))]          # noqa: E731
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, '%s %s %s' % (seg(n.left), o, seg(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + o.join('(%s)' % seg(v) for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % seg(v) for v in rest) + ')', 'drop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(%s)' % seg(n.operand), 'not')
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, '(not (%s))' % seg(n.test), 'negate')
            add(n.test, 'True', 'true')
            add(n.test, 'False', 'false')
        elif isinstance(n, ast.IfExp):
            add(n, seg(n.body), 'ifexp')
            add(n, seg(n.orelse), 'ifexp')
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), 'const')
            elif isinstance(v, int):
                add(n, str(v + 1), 'const')
                add(n, str(v - 1) if v else '-1', 'const')
            elif v is None:
                add(n, 'False', 'const')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            add(n, '%s %s %s' % (seg(n.left), '-' if isinstance(n.op, ast.Add) else '+', seg(n.right)), 'arith')
        elif isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            add(n, 'pass', 'delete')
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            add(n, 'pass', 'delete')
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            add(n, 'return None', 'return')
        elif isinstance(n, ast.Break):
            add(n, 'continue', 'loop')
            add(n, 'pass', 'loop')
        elif isinstance(n, ast.Continue):
            add(n, 'break', 'loop')
            add(n, 'pass', 'loop')
        elif isinstance(n, ast.Raise) and n.exc is not None:
            add(n, 'pass', 'delete')
        elif isinstance(n, ast.Try):
            for h in n.handlers:
                if isinstance(h.type, ast.Tuple):
                    for i in range(len(h.type.elts)):
                        es = [e for j, e in enumerate(h.type.elts) if j != i]
                        add(h.type, '(%s,)' % ', '.join(seg(e) for e in es), 'except')
                elif h.type is not None:
                    add(h.type, 'ZeroDivisionError', 'except')
                    add(h.type, 'Exception', 'except')
        elif isinstance(n, ast.Call):
            for i, a in enumerate(n.args):
                if len(n.args) >= 2 and i + 1 < len(n.args) and not isinstance(a, ast.Starred) and not isinstance(n.args[i + 1], ast.Starred):
                    x, y = span(a)[0], span(n.args[i + 1])[1]
                    out.append((x, y, '%s, %s' % (seg(n.args[i + 1]), seg(a)), 'swap'))
            f = seg(n.func)
            for a, b in (('reversed', ''), ('list', ''), ('.append', '.remove'), ('any', 'all'), ('all', 'any'), ('isinstance', '')):
                if f == a and b and n.args:
                    add(n.func, b, 'call')
                elif f == a and not b and len(n.args) == 1:
                    add(n, seg(n.args[0]), 'call')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, seg(n.value), 'slice')
    good = []
    for a, b, new, kind in out:
        if src[a:b] == new:
            continue
        t = src[:a] + new + src[b:]
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        good.append((a, b, new, kind))
    return good


def one(job):
    f, a, b, new, kind, budget, seed = job
    src = open(os.path.join('/repo', f)).read()
    tmp = tempfile.mkdtemp(prefix='am-')
    repo = os.path.join(tmp, 'repo')
    line = src[:a].count('\n') + 1
    r = {'file': f, 'line': line, 'old': src[a:b], 'new': new, 'kind': kind, 'job': job}
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', TZ='UTC', PYTHONHASHSEED='0',
               PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'))
    try:
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        open(os.path.join(repo, f), 'w').write(src[:a] + new + src[b:])
        try:
            t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-o', 'addopts=', 'tests'], cwd=repo, env=env,
                               capture_output=True, text=True, timeout=60).returncode
        except subprocess.TimeoutExpired:
            t = 99
        if t:
            r['result'] = 'tests'
            return r
        order = list(range(1, 24))
        random.Random(line).shuffle(order)
        first = {'union': [16], 'mount': [19], 'configparser': [20], 'context': [1, 2, 14, 13], 'default': [4, 5], 'json': [4, 5]}.get(
            os.path.basename(f)[:-3], [7, 6, 12, 13, 11, 10, 22, 23, 17, 15])
        order = first + [x for x in order if x not in first]
        for p in order:
            out = os.path.join(tmp, 'o.json')
            try:
                subprocess.run([PY, os.path.join(HERE, 'concrete', 'run.py'), 'c%02d' % p, '--repo', repo, '--budget', str(budget), '--seed', str(seed),
                                '--out', out], env=env, cwd=tmp, capture_output=True, timeout=budget + 60)
                d = json.load(open(out))
            except Exception as e:
                r['result'], r['by'] = 'error', 'C%02d %s' % (p, str(e)[:100])
                return r
            if d['hits']:
                r['result'], r['by'] = 'noticed', 'C%02d %s' % (p, d['hits'][0]['message'][:160])
                return r
        r['result'] = 'SURVIVED'
        return r
    finally:
        shutil.rmtree(tmp)


def qualname(f, line):
    """The function around a line, as the evidence names it."""
    best = None

    def walk(n, pre):
        nonlocal best
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                if c.lineno <= line <= c.end_lineno:
                    if isinstance(c, ast.FunctionDef) and best is None or not isinstance(c, ast.FunctionDef):
                        pass
                    if isinstance(c, ast.FunctionDef):
                        best = best or '.'.join(pre + [c.name])
                        return
                    walk(c, pre + [c.name])
            else:
                walk(c, pre)
    walk(ast.parse(open(os.path.join('/repo', f)).read()), [f[:-3].replace('/__init__', '').replace('/', '.')])
    return best


def second(out):
    """The edits the executions did not notice, against the contracts of the properties that read the function."""
    res = json.load(open(out))
    ev = {}
    for i in range(1, 24):
        c = json.load(open(os.path.join(HERE, 'evidence', 'C%02d.json' % i)))['coverage']
        ev['C%02d' % i] = set(c['functions_under_contract']) | set(c['functions_inlined'])
    for r in res:
        if r['result'] != 'SURVIVED' or 'proof' in r:
            continue
        f, a, b, new = r['job'][:4]
        src = open(os.path.join('/repo', f)).read()
        fn = qualname(f, r['line'])
        tmp = tempfile.mkdtemp(prefix='am-')
        repo = os.path.join(tmp, 'repo')
        r['fn'], r['proof'] = fn, ''
        try:
            shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', '__pycache__'))
            open(os.path.join(repo, f), 'w').write(src[:a] + new + src[b:])
            props = [p for p in sorted(ev) if any(x == fn or x.startswith(fn + '.') for x in ev[p])] if fn else sorted(ev)
            r['props'] = props
            seen = []
            for p in props:
                t = subprocess.run(['python3-vt', os.path.join(HERE, 'check.py'), p, 'quick', '--repo', repo, '--no-concrete'],
                                   capture_output=True, text=True, timeout=900, cwd=HERE)
                u = 'UNDEC' if 'undecided' in (t.stdout + t.stderr) and t.returncode == 0 else ''
                seen.append('%s:%d%s' % (p, t.returncode, u))
                if t.returncode == 1:
                    r['proof'] = p + ' ' + t.stdout.strip().split('\n')[-1][:200]
                    break
            r['seen'] = seen
        finally:
            shutil.rmtree(tmp)
        json.dump(res, open(out, 'w'))
        print('%s:%d %s [%s] %r -> %r | %s | %s' % (f, r['line'], fn, r['kind'], r['old'][:80], r['new'][:80], r['proof'] or 'NOT NOTICED', seen), flush=True)


def contract_of(r):
    """One edit that an execution noticed, against the contracts of the property it was noticed by."""
    f, a, b, new = r['job'][:4]
    src = open(os.path.join('/repo', f)).read()
    tmp = tempfile.mkdtemp(prefix='am-')
    repo = os.path.join(tmp, 'repo')
    try:
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        open(os.path.join(repo, f), 'w').write(src[:a] + new + src[b:])
        t = subprocess.run(['python3-vt', os.path.join(HERE, 'check.py'), r['by'][:3], 'quick', '--repo', repo, '--no-concrete'],
                           capture_output=True, text=True, timeout=900, cwd=HERE)
        last = t.stdout.strip().split('\n')[-1]
        return 'refuted' if t.returncode == 1 else 'undecided' if 'undecided' in last or 'refuted' in last else 'PROVED', last
    finally:
        shutil.rmtree(tmp)


def third(out):
    """The edits the executions noticed and the contracts of that property accept: what the contracts do not say."""
    res = [r for r in json.load(open(out)) if r['result'] == 'noticed']
    with cf.ThreadPoolExecutor(3) as ex:
        for r, (v, last) in zip(res, ex.map(contract_of, res)):
            print('%s %s:%d [%s] %r -> %r | %s | %s' % (v, r['file'], r['line'], r['kind'], r['old'][:80], r['new'][:80], r['by'][:120], last[:120]), flush=True)


def main():
    out = sys.argv[1]
    if '--third' in sys.argv:
        return third(out)
    if '--second' in sys.argv:
        return second(out)
    arg = lambda n, d: int(sys.argv[sys.argv.index(n) + 1]) if n in sys.argv else d          # noqa: E731
    rng = random.Random(arg('--seed', 1))
    jobs = []
    for f in FILES:
        src = open(os.path.join('/repo', f)).read()
        jobs += [(f, a, b, new, kind, arg('--budget', 2), 7) for a, b, new, kind in edits(src)]
    rng.shuffle(jobs)
    print(len(jobs), 'edits', flush=True)
    jobs = jobs[arg('--from', 0):arg('--from', 0) + arg('--n', 400)]
    res = []
    with cf.ProcessPoolExecutor(arg('--jobs', 8)) as ex:
        for r in ex.map(one, jobs):
            res.append(r)
            json.dump(res, open(out, 'w'))
    from collections import Counter
    print(Counter(r['result'] for r in res))
    for r in res:
        if r['result'] in ('SURVIVED', 'error'):
            print('%s:%d [%s] %r -> %r %s' % (r['file'], r['line'], r['kind'], r['old'][:160], r['new'][:160], r.get('by', '')))


if __name__ == '__main__':
    main()
