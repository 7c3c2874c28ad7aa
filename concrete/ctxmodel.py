"""Random programs over context scopes, run against an executable model of C01/C02."""
from lib import need, same, bad, run
import pilo
from pilo import ctx, DefaultSource

NAMES = ['color', 'shape', 'form', 'parent', 'tags', 'size', 'items', 'copy']


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


def gen(rng, depth, rewinds, inner=False):
    """A program: list of steps."""
    out = []
    for _ in range(rng.randint(1, 3) if depth else rng.randint(0, 1)):
        r = rng.random()
        if depth and r < (0.72 if rewinds else 0.9):
            kind = rng.choice(['key', 'key', 'idx', 'var', 'var', 'src', 'again', 'keyvar', 'reset', 'none', 'falsy'])
            binds = {rng.choice(NAMES): rng.choice([0, 1, 2, None, 'x', False, '']) for _ in range(rng.randint(0, 2))}
            out.append({'op': 'scope', 'kind': kind, 'key': rng.choice(['a', 'b', 'c', '', 'x.y']), 'idx': rng.randint(-1, 3),
                        'binds': binds, 'mark': rng.randint(0, 9), 'call': rng.random() < .5,
                        'exit': rng.choice(['ok', 'ok', 'boom', 'stop']), 'body': gen(rng, depth - 1, rewinds)})
        elif rewinds and depth and r < 0.95:
            out.append({'op': 'rewind', 'how': rng.choice(['mark', 'depth', 'top', 'none']), 'mark': rng.randint(0, 9),
                        'depth': rng.randint(0, 4), 'exit': rng.choice(['ok', 'boom', 'stop']),
                        'body': gen(rng, depth - 1, rewinds)})
        else:
            out.append({'op': 'look'})
    return out


class M(object):
    """Model: a stack of (binds, key or NOKEY, path-or-None); a path is a list of keys, shared by its scopes."""

    def __init__(self):
        self.stack = []

    def keys(self):
        for i in range(len(self.stack) - 1, -1, -1):
            if 'root' in self.stack[i]:
                return [f['key'] for f in self.stack[i + 1:] if 'key' in f], self.stack[i]['root']
        return None, None

    def lookup(self, n):
        for f in reversed(self.stack):
            if n in f['binds']:
                return True, f['binds'][n]
        return False, None

    def values(self, n):
        return [f['binds'][n] for f in self.stack if n in f['binds']]


BASE = {'src': None, 'src_path': None, 'ignore_default': False, 'ignore_missing': False}


def agree(m, where):
    keys, root = m.keys()
    p = ctx.src_path
    if keys is None:
        need(p is None, '%s: src_path is %r with no source in scope', where, p)
    else:
        need(p is not None, '%s: no current path', where)
        same([x.key for x in p], keys, '%s: path keys', where)
        if root is not None:
            need(p.src is root, '%s: current path belongs to another source', where)
    for n in NAMES + ['mark', 'ignore_default', 'ignore_missing', 'src', 'nope']:
        has, v = m.lookup(n)
        got, ex = run(getattr, ctx, n)
        if has:
            need(ex is None, '%s: %s is bound but reading it raises %r', where, n, ex)
            same(got, v, '%s: ctx.%s', where, n)
        else:
            need(type(ex) is AttributeError, '%s: unbound %s gives %r / %r', where, n, got, ex)
        same(ctx.values_for(n), m.values(n), '%s: values_for(%s)', where, n)
    same(len(ctx.stack), len(m.stack), '%s: number of scopes', where) if hasattr(ctx, 'stack') else None


def play(prog, m, where, paths):
    for n, st in enumerate(prog):
        w = '%s/%d' % (where, n)
        agree(m, w)
        if st['op'] == 'look':
            continue
        before = list(m.stack)
        kept = [(p, [x.key for x in p]) for p in paths]
        raised = None
        exp = {'ok': None, 'boom': Boom, 'stop': Stop}[st['exit']]
        try:
            if st['op'] == 'scope':
                binds = dict(st['binds'])
                binds['mark'] = st['mark']
                f = {'binds': dict(binds)}
                kw = dict(binds)
                k = st['kind']
                has_path = m.keys()[0] is not None
                if k in ('key', 'keyvar', 'idx') and not has_path:
                    k = 'src'
                if k in ('key', 'keyvar'):
                    kw['src'] = f['key'] = st['key']
                elif k == 'idx':
                    kw['src'] = f['key'] = st['idx']
                elif k == 'again':
                    # a source which is in use already, further down or just now
                    kw['src'] = f['root'] = ([x['root'] for x in m.stack if x.get('root') is not None] or [DefaultSource({'a': 1})])[-1 if st['mark'] % 2 else 0]
                    k = 'src'
                elif k == 'src':
                    kw['src'] = f['root'] = DefaultSource({'a': 1})
                if 'src' in kw:
                    f['binds']['src'] = kw['src']
                if k == 'reset':
                    f = {'binds': {'src': None, 'src_path': None}, 'none': True}
                    f['root'] = None
                    cm = ctx.reset()
                elif st['call']:
                    cm = ctx(**kw)
                else:
                    cm = ctx.push(**kw)
                if k == 'reset':
                    # no current path inside until a source is pushed
                    pass
                with cm:
                    m.stack.append(f)
                    if k == 'src':
                        need(ctx.src_path is not None, '%s: no path for the source', w)
                        need(not any(ctx.src_path is p for p in paths), '%s: the path of a new source is not fresh', w)
                        paths = paths + [ctx.src_path]
                    if k == 'reset':
                        need(ctx.src_path is None, '%s: reset keeps a path', w)
                        play_reset(st['body'], m, w, paths)
                    else:
                        play(st['body'], m, w, paths)
                    agree_or_reset(m, w + ' end of body')
                    if exp:
                        raise exp()
            else:
                target = None
                how = st['how']
                n_ = len(m.stack)
                if how == 'top':
                    target = n_ - 1
                elif how == 'depth':
                    target = max(0, n_ - 1 - st['depth'])
                elif how == 'mark':
                    for i in range(n_ - 1, -1, -1):
                        if m.stack[i]['binds'].get('mark') == st['mark']:
                            target = i
                            break
                calls = []

                def stop(frame):
                    calls.append(frame)
                    if how in ('top', 'depth'):
                        return len(calls) - 1 == n_ - 1 - target
                    if how == 'none':
                        return False
                    return 'mark' in frame and frame['mark'] == st['mark']
                try:
                    cm = ctx.rewind(stop)
                except ctx.RewindDidNotStop:
                    need(target is None, '%s: RewindDidNotStop although a scope satisfies stop', w)
                    agree_or_reset(m, w + ' after RewindDidNotStop')
                    continue
                need(target is not None, '%s: rewind although no scope satisfies stop', w)
                saved, m.stack = m.stack, m.stack[:target + 1]
                with cm:
                    agree_or_reset(m, w + ' inside rewind')
                    if m.keys()[0] is not None and not any('none' in f for f in m.stack):
                        play(st['body'], m, w, paths)
                    if exp:
                        raise exp()
        except (Boom, Stop) as e:
            raised = type(e)
        need(raised is exp, '%s: scope ended with %r, its body with %r', w, raised, exp)
        m.stack = before
        agree_or_reset(m, w + ' after the scope')
        for p, ks in kept:
            same([x.key for x in p], ks, '%s: keys of an outer path after the scope', w)


def agree_or_reset(m, where):
    keys, root = m.keys()
    for f in reversed(m.stack):
        if 'none' in f:
            need(ctx.src_path is None, '%s: path after reset', where)
            for n in NAMES + ['nope']:
                has, v = m.lookup(n)
                got, ex = run(getattr, ctx, n)
                need((ex is None) == has and (not has or got == v), '%s: ctx.%s', where, n)
            return
        if 'root' in f:
            break
    agree(m, where)


def play_reset(prog, m, where, paths):
    """Inside reset: only source scopes and plain bindings make sense."""
    for n, st in enumerate(prog):
        if st['op'] != 'scope':
            continue
        f = {'binds': {'src': None}, 'root': DefaultSource([1])}
        f['binds']['src'] = f['root']
        before = list(m.stack)
        with ctx(src=f['root']):
            m.stack.append(f)
            play(st['body'], m, where + '/r%d' % n, paths)
        m.stack = before
        need(ctx.src_path is None, '%s: path inside reset after a scope', where)


def check(prog):
    stack = list(ctx.stack)
    try:
        m = M()
        m.stack = [{'binds': dict(BASE), 'base': True}]
        del m.stack[0]['binds']['src_path']
        agree(m, 'start')
        src = DefaultSource({'a': {'b': 1}})
        with ctx(src=src):
            m.stack.append({'binds': {'src': src}, 'root': src})
            play(prog, m, '', [ctx.src_path])
        m.stack.pop()
        agree(m, 'end')
    finally:
        ctx.stack[:] = stack
