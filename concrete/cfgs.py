"""Configuration sources: random configurations, an independent lookup (C20, and histories for C03)."""
import collections.abc
import shlex
from lib import need, same, bad, run, eq
from pilo import NONE
from pilo.source import ConfigSource, SourceError
from six.moves import configparser
import six
from srcs import Gone

NAMES = ['opt', 'name', 'sub', 'x_1', 'other']
SUBS = ['a', 'b', 'k-1', 'p.q', 'opt']
SECTIONS = ['main', 'two', 'empty', 'sub']
TEXTS = ['a #b c', 'x;y | z', 'a\\ b c', '"a \\" b" c', "it's d' e", 'a,b,c', '1', '0', 'true', 'F', 'one two', '"a b" c', "'q r'", 'x', '-3', '1.5', '', '  padded  ', 'a b c d']
DEFAULTS = ['dv', 7, 'l1 l2', 'a\n  \n b c ', '"x y" z', 1.5, True]
MULTI = ['\n  one two', '\n  one', '\n\n  it d  ', '\n  "q r" s','\n  one\n  two', 'first\n  second\n  third', '\n  a b\n\n  c', 'one\n  two words']


def gen_config(rng):
    secs = []
    for s in rng.sample(SECTIONS, rng.randint(1, 3)):
        opts = {}
        for _ in range(rng.randint(0, 5)):
            r = rng.random()
            n = rng.choice(NAMES)
            if r < .35:
                opts['%s[%s]' % (n, rng.choice(SUBS))] = rng.choice(TEXTS)
            elif r < .55:
                opts[n] = rng.choice(MULTI)
            else:
                opts[n] = rng.choice(TEXTS)
        secs.append([s, sorted(opts.items())])
    rng.shuffle(secs)
    defaults = None
    bound = rng.choice([None, None] + [s for s, _ in secs])
    if rng.random() < .5:
        if bound:
            defaults = dict((k, rng.choice(DEFAULTS)) for k in rng.sample(NAMES + ['dflt'], 2))
        else:
            defaults = dict((s, dict((k, rng.choice(DEFAULTS)) for k in rng.sample(NAMES + ['dflt'], 2)))
                            for s in rng.sample(SECTIONS, 2))
    return {'kind': 'config', 'sections': secs, 'bound': bound, 'defaults': defaults, 'parser': rng.random() < .5}


def text_of(case):
    out = []
    for s, opts in case['sections']:
        out.append('[%s]' % s)
        for k, v in opts:
            out.append('%s = %s' % (k, v))
    return '\n'.join(out) + '\n'


def source(case):
    text = text_of(case)
    cfg = text
    if case['parser']:
        cfg = configparser.ConfigParser()
        cfg.read_file(six.StringIO(text)) if hasattr(cfg, 'read_file') else cfg.readfp(six.StringIO(text))
    return ConfigSource(cfg, section=case['bound'], defaults=case['defaults'])


class Unsplit(Exception):
    """A text with an unbalanced quotation has no words: nothing is stated about it."""


class Oracle(object):
    def __init__(self, case):
        self.raw = {}
        p = configparser.ConfigParser()
        p.read_file(six.StringIO(text_of(case))) if hasattr(p, 'read_file') else p.readfp(six.StringIO(text_of(case)))
        for s in p.sections():
            self.raw[s] = list(p.items(s))
        self.order = p.sections()
        self.case = case

    def section_defaults(self, s):
        d = self.case['defaults'] or {}
        return d if self.case['bound'] else (d.get(s) or {})

    def subs(self, s):
        """name -> {key: text} of the name[key] options."""
        out = {}
        for k, v in self.raw[s]:
            if k.endswith(']') and '[' in k:
                n, key = k[:-1].split('[', 1)
                if n and key and all(c.isalnum() or c == '_' for c in n) and all(c.isalnum() or c in '_-.' for c in key):
                    out.setdefault(n, {})[key] = v
        return out

    def section(self, s, key):
        subs = self.subs(s)
        if key in subs:
            return ('sub', subs[key])
        if isinstance(key, str):
            for k, v in self.raw[s]:
                if k == key.lower():
                    return ('text', v)
        d = self.section_defaults(s)
        if key in d:
            return ('value', d[key])
        raise Gone()

    def words(self, t):
        if '\n' in t:
            return [ln.strip() for ln in t.splitlines() if ln.strip()]
        try:
            return shlex.split(t)
        except ValueError:
            raise Unsplit()

    def step(self, at, key):
        kind, x = at
        if kind == 'root':
            if key in self.raw:
                return ('section', key)
            raise Gone()
        if kind == 'section':
            return self.section(x, key)
        if kind == 'sub':
            if key in x:
                return ('text', x[key])
            raise Gone()
        if kind == 'text' or kind == 'value' and isinstance(x, str):
            if isinstance(key, int):
                w = self.words(x)
                if -len(w) <= key < len(w):
                    return ('text', w[key])
            raise Gone()
        raise Gone()

    def at(self, keys):
        v = ('section', self.case['bound']) if self.case['bound'] else ('root', None)
        for k in keys:
            v = self.step(v, k)
        return v

    def keys(self, at):
        kind, x = at
        if kind == 'root':
            return set(self.order)
        if kind == 'section':
            return set(self.subs(x)) | set(k for k, v in self.raw[x])
        if kind == 'sub':
            return set(x)
        return None


def agree(o, p, keys, what='value'):
    try:
        at = o.at(keys)
    except Gone:
        at = None
    except Unsplit:
        return
    w = 'keys %r of %s (section=%r, defaults=%r)' % (keys, text_of(o.case), o.case['bound'], o.case['defaults'])
    same(p.exists, at is not None, 'exists at %s', w)
    same(p.is_null, False, 'is_null at %s', w)
    got = p.value
    if at is None:
        need(got is NONE, 'value at %s: got %r, expected none', w, got)
    elif at[0] in ('text', 'value'):
        same(got, at[1], 'value at %s', w)
    elif at[0] == 'sub':
        need(isinstance(got, collections.abc.Mapping), 'sub-mapping at %s: got %r', w, got)
        same(dict(got), at[1], 'sub-mapping at %s', w)
    ks = o.keys(at) if at else None
    m, ex = run(lambda: list(p.mapping()))
    if ks is None:
        need(isinstance(ex, SourceError), 'mapping of a non-mapping at %s: %r / %r', w, m, ex)
    else:
        need(ex is None, 'mapping at %s raises %r', w, ex)
        same(set(m), ks, 'mapping keys at %s', w)
    n, ex = run(p.sequence)
    if at and at[0] in ('text', 'value') and isinstance(at[1], str):
        try:
            ws = o.words(at[1])
        except Unsplit:
            return
        need(ex is None, 'sequence at %s raises %r', w, ex)
        same(n, len(ws), 'sequence length at %s', w)
        for i in range(n):
            p.append(i)
            same(p.value, ws[i], 'element %d at %s', i, w)
            s, ex = run(p.primitive, str)
            same(s, ws[i], 'element %d as string at %s', i, w)
            p.pop()
    else:
        need(isinstance(ex, SourceError), 'sequence of a non-text at %s: %r / %r', w, n, ex)


def pick(rng, case):
    secs = case['sections']
    s, opts = rng.choice(secs)
    c = rng.random()
    names = [k.split('[')[0] for k, _ in opts] or ['nope']
    if c < .3:
        return rng.choice([s, 'nope'] + [x for x, _ in secs])
    if c < .6:
        return rng.choice(names + ['dflt', 'nope'])
    if c < .75:
        return rng.choice(SUBS)
    if c < .9:
        return rng.choice([0, 1, 2, 3, -1])
    return rng.choice([k for k, _ in opts] or ['nope'])


def paths(rng, case):
    out = []
    for _ in range(6):
        keys = []
        if not case['bound']:
            keys.append(rng.choice([s for s, _ in case['sections']] + ['nope']))
        s = case['bound'] or keys[0]
        opts = dict(case['sections']).get(s, [])
        for _ in range(rng.randint(0, 2)):
            if len(keys) == (0 if case['bound'] else 1):
                keys.append(rng.choice([k.split('[')[0] for k, _ in opts] + [k for k, _ in opts] + ['dflt', 'nope'] + NAMES))
            else:
                keys.append(rng.choice(SUBS + [0, 1, 2, -1]))
        out.append(keys)
    return out


def gen_history(rng):
    case = gen_config(rng)
    ops = []
    for _ in range(rng.randint(1, 10)):
        r = rng.random()
        if r < .5:
            ops.append(['append', pick(rng, case)])
        elif r < .7:
            ops.append(['pop'])
        elif r < .8:
            ops.append(['set', pick(rng, case)])
        elif r < .85:
            ops.append(['path', rng.random()])
        else:
            ops.append(['read'])
    case['ops'] = ops
    return case


def play(case):
    o = Oracle(case)
    src = source(case)
    p = src.path()
    keys = []
    opened = [(p, keys)]
    for op in case['ops'] + [['read']]:
        if op[0] == 'append':
            p.append(op[1])
            keys.append(op[1])
        elif op[0] == 'pop' and keys:
            p.pop()
            keys.pop()
        elif op[0] == 'set' and keys:
            p[-1] = op[1]
            keys[-1] = op[1]
        elif op[0] == 'path':
            # another path of the same source: one opened before, or a new one
            i = int(op[1] * (len(opened) + 1))
            if i == len(opened):
                opened.append((src.path(), []))
            p, keys = opened[i]
        elif op[0] == 'read':
            agree(o, p, keys)
        same([x.key for x in p], keys, 'keys')
