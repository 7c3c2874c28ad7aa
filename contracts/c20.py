"""C20: sections, options, sub-mappings, lists and defaults of configurations."""
from .common import *          # noqa: F401,F403
from .common import fn         # noqa: F401
from pyvc.values import NONEMPTY
from pyvc.builtins import RE_MATCH, RE_GROUP, STRFN, SPLITLINES

CFG = 'pilo.source.configparser.'
#: name[key]: a name of word characters, a key of word characters, dashes and dots
OPTION = r'(?P<name>\w+)\[(?P<key>[\w.-]+)\]'
HASSEC = fn('has_section', STR, BOOL)
HASOPT = fn('has_option', STR, STR, BOOL)
GETOPT = fn('option', STR, STR, STR)
NAMES, TEXTS = fn('option_names', STR, SEQ), fn('option_texts', STR, SEQ)
SECTIONS = z3.Const('sections', SEQ)
SUBKEYS = fn('keys_of_sub_mapping', V, SEQ)
WS = z3.StringVal('<ws>')
WORDS_OK, WORDS = fn('shlex_ok', STR, BOOL), fn('shlex_split', STR, SEQ)
ASSUMPTIONS = [
    'a parser\'s sections, options and items are the same options with the same texts, and reading them changes nothing',
    'an option either is `name[key]` as a whole or does not start like one',
    're.match decides whether a text starts like a pattern and what its groups are; shlex.split gives the words of a text',
    'collections.defaultdict(dict) maps a name not seen yet to a new empty dict',
]


def strv(s):
    return z3.StringVal(s) if isinstance(s, str) else s


class World(object):
    """A parser with any sections and options; a name N, a key K of it and an option X are looked at."""

    def __init__(self, it):
        self.it = it
        NONE = member(it, 'pilo', 'NONE')
        it.embedded.add(NONE.oid)
        it.ghost['arrays'] = True
        self.NONE, self.none = NONE, it.to_V(NONE)
        self.S = z3.Const('section', STR)
        self.N, self.K, self.X = z3.Const('N', STR), z3.Const('K', STR), z3.Const('N', STR)
        self.pid = it.loader.pattern_id(OPTION)
        self.patterns = len(it.loader.pattern_ids)
        self.writes = 0
        S = self.S
        self.names, self.texts = NAMES(S), TEXTS(S)
        n = self.n = z3.Length(self.names)
        it.assume(z3.Length(self.texts) == n)
        names, texts = self.names, self.texts
        name, text = lambda k: V.s(names[k]), lambda k: V.s(texts[k])          # noqa: E731
        sub = lambda k: RE_MATCH(self.pid, z3.StringVal('match'), name(k))          # noqa: E731
        part = lambda k, g: RE_GROUP(self.pid, name(k), V.str(z3.StringVal(g)))          # noqa: E731
        has = self.has_name = PrefixFn('has_sub_mapping', BOOL, z3.BoolVal(False), lambda k: z3.Or(
            has.f(k), z3.And(sub(k), part(k, 'name') == V.str(self.N))), self.facts)
        key = self.has_key = PrefixFn('has_sub_key', BOOL, z3.BoolVal(False), lambda k: z3.Or(key.f(k), self.hit(k)))
        val = self.sub_text = PrefixFn('sub_text', V, V.none, lambda k: z3.If(self.hit(k), texts[k], val.f(k)))
        opt = self.has_opt = PrefixFn('lists_option', BOOL, z3.BoolVal(False), lambda k: z3.Or(opt.f(k), name(k) == self.X))
        self.sub, self.part = sub, part
        enum = self.enum = z3.Const('sub_names_listed', SEQ)
        self.listed = PrefixFn('listed', BOOL, z3.BoolVal(False), lambda k: z3.Or(self.listed.f(k), V.s(enum[k]) == self.N),
                               lambda k: [z3.Implies(z3.And(k >= 0, k < z3.Length(enum)), V.is_str(enum[k]))])
        it.prefix_fns += [has, key, val, opt, self.listed]
        it.prefix_facts(z3.IntVal(0), None)
        self.parser = it.new(host_class(it, 'AParser', None, {
            'has_section': lambda it, a, k: it.lift(HASSEC(it.str_term(a[1]))) if it.is_text(a[1]) else False,
            'has_option': lambda it, a, k: it.lift(HASOPT(it.str_term(a[1]), it.str_term(a[2]))),
            'get': self.get, 'items': self.items,
            'options': lambda it, a, k: self.section(a[1]) and it.seq_list(names, it.B['str']),
            'sections': lambda it, a, k: it.seq_list(SECTIONS, it.B['str']),
        }), 'parser')
        self.two_level()

        def cands(it, loop):
            out = {}
            k = loop['k']
            src = loop['it'].seq if loop['it'] is not None else None
            for n, t in loop['cur'].items():
                if t.sort() == SEQ and n in loop['entry']:
                    e = loop['entry'][n]
                    x = z3.Unit(V.str(self.N))
                    for nm, g in (('names', self.listed), ('options', opt)):
                        out['with %s %s' % (nm, n)] = z3.Contains(t, x) == z3.Or(z3.Contains(e, x), g.f(k))
                    if src is not None and len(src) == 1 and src[0][0] == 's':
                        out['copied ' + n] = t == z3.Concat(e, z3.Extract(src[0][1], z3.IntVal(0), k))
                if t.sort() == SETS:
                    out['number ' + n] = z3.Not(z3.Select(t, V.int(z3.Const('index', INT))))
                    kk = V.pair(V.str(self.N), V.str(self.K))
                    out['name ' + n] = z3.Select(t, V.str(self.N)) == has.f(k)
                    out['key ' + n] = z3.Select(t, kk) == key.f(k)
                    v = loop['cur'].get(n.replace('.dom', '.val'))
                    if v is not None and v.sort() == MAPS:
                        out['text ' + n] = z3.Implies(key.f(k), z3.Select(v, kk) == val.f(k))
            return out
        it.extra_cands = cands

    def hit(self, k):
        return z3.And(self.sub(k), self.part(k, 'name') == V.str(self.N), self.part(k, 'key') == V.str(self.K))

    def facts(self, k):
        """What a parser promises of its k-th option."""
        nm, S = V.s(self.names[k]), self.S
        here = z3.And(k >= 0, k < self.n)
        full = RE_MATCH(self.pid, z3.StringVal('fullmatch'), nm)
        return [z3.Implies(here, z3.And(V.is_str(self.names[k]), V.is_str(self.texts[k]), HASOPT(S, nm), GETOPT(S, nm) == V.s(self.texts[k]))),
                z3.Implies(here, z3.And(self.sub(k) == full, z3.Implies(self.sub(k), z3.And(
                    V.is_str(self.part(k, 'name')), V.is_str(self.part(k, 'key'))))))]

    def section(self, s):
        if not z3.eq(z3.simplify(self.it.str_term(s)), self.S):
            self.it.prove('the section asked for is the one given', self.it.str_term(s) == self.S)
        return True

    def get(self, it, a, k):
        s, o = it.str_term(a[1]), it.str_term(a[2])
        if not it.branch(HASOPT(s, o)):
            it.raise_exc('Exception', 'no such option')
        return it.lift(GETOPT(s, o))

    def items(self, it, a, k):
        self.section(a[1])
        return IterV(self.n, lambda i: (it.lift(V.s(self.names[i])), it.lift(V.s(self.texts[i]))))

    def two_level(self):
        """collections.defaultdict(dict), whose state is one flat map over (name, key)."""
        it = self.it
        D = it.B['dict']

        def key(o, k):
            return V.pair(it.to_V(o.attrs['name']), it.to_V(k))

        def view(o, n):
            x = it.new(View)
            x.attrs.update({'outer': o, 'name': n})
            return x

        def init(it, a, k):
            if k or len(a) != 2 or a[1] is not D:
                raise Unsupported('another defaultdict')
            a[0].data = None
            a[0].attrs['names'] = it.new_set([], 'sub-names')
            a[0].attrs['flat'] = it.new_dict(label='sub-texts')
            a[0].attrs['flat'].data = DictData(dom=z3.K(V, z3.BoolVal(False)), val=z3.K(V, V.none))
            a[0].attrs['names'].data = SetData(dom=z3.K(V, z3.BoolVal(False)), strs=True)
            return None

        def outer_get(it, a, k):
            it.set_add(a[0].attrs['names'], a[1])
            return view(a[0], a[1])

        def outer_setdefault(it, a, k):
            if len(a) != 3 or not self.empty(a[2]):
                raise Unsupported('a default with keys')
            return outer_get(it, a, k)

        def outer_dget(it, a, k):
            h = it.contains(a[0].attrs['names'], a[1])
            if h is True or h is not False and it.branch(h):
                return view(a[0], a[1])
            return a[2] if len(a) > 2 else None

        def names(it, o):
            # an enumeration of the names: each member, nothing else
            d = o.attrs['names'].data
            it.assume(self.listed.f(z3.Length(self.enum)) == z3.Select(d.dom, V.str(self.N)))
            i = IterV(z3.Length(self.enum), lambda k: it.lift(V.s(self.enum[k])), src=o.attrs['names'], seq=[('s', self.enum, it.B['str'])])
            i.src_n = None
            return i

        def pairs(it, a, k):
            i = names(it, a[0])
            return IterV(i.n, lambda j: (i.get(j), view(a[0], i.get(j))))
        Two = self.Two = host_class(it, 'TwoLevel', [D], {
            '__init__': init, '__getitem__': outer_get, 'setdefault': outer_setdefault, 'get': outer_dget,
            '__contains__': lambda it, a, k: it.wrapb(it.contains(a[0].attrs['names'], a[1])),
            '__len__': lambda it, a, k: it.length(a[0].attrs['names']),
            '__iter__': lambda it, a, k: names(it, a[0]), 'keys': lambda it, a, k: names(it, a[0]), 'items': pairs,
            'values': lambda it, a, k: self.not_modelled(), '__delitem__': lambda it, a, k: self.not_modelled(),
            '__setitem__': lambda it, a, k: self.not_modelled(), 'update': lambda it, a, k: self.not_modelled(),
        })

        def inner_get(it, a, k):
            kk = key(a[0], a[1])
            dom, val = it.dict_arrays(a[0].attrs['outer'].attrs['flat'])
            if not it.branch(z3.Select(dom, kk)):
                it.raise_exc('KeyError', a[1])
            return it.lift(z3.Select(val, kk))

        def inner_set(it, a, k):
            fl = a[0].attrs['outer'].attrs['flat']
            dom, val = it.dict_arrays(fl)
            it.write_data(fl)
            kk = key(a[0], a[1])
            fl.data = DictData(dom=z3.Store(dom, kk, z3.BoolVal(True)), val=z3.Store(val, kk, it.to_V(a[2])))
        View = host_class(it, 'SubMapping', [D], {
            '__getitem__': inner_get, '__setitem__': inner_set,
            '__contains__': lambda it, a, k: it.lift(z3.Select(it.dict_arrays(a[0].attrs['outer'].attrs['flat'])[0], key(a[0], a[1]))),
            '__iter__': lambda it, a, k: self.not_modelled(), 'update': lambda it, a, k: self.not_modelled(),
            '__len__': lambda it, a, k: self.not_modelled(), 'items': lambda it, a, k: self.not_modelled(),
            'keys': lambda it, a, k: it.seq_list(SUBKEYS(it.to_V(a[0].attrs['name'])), it.B['str']),
        })
        self.View = View
        it.loader.bi.modules['collections'].ns['defaultdict'] = Two
        self.views = view

    def empty(self, d):
        return isinstance(d, Obj) and d.data is not None and getattr(d.data, 'items', None) == {}

    def not_modelled(self):
        raise Unsupported('a use of the sub-mappings that is not modelled')

    def known_patterns(self):
        if len(self.it.loader.pattern_ids) != self.patterns:
            raise Unsupported('options are recognised by another pattern')

    def defaults(self, kind):
        """None or any mapping."""
        it = self.it
        self.ddom, self.dval = z3.Const('defaults.dom', SETS), z3.Const('defaults.val', MAPS)
        if kind == 'none':
            it.assume(self.ddom == z3.K(V, z3.BoolVal(False)))
            return None
        d = it.new_dict(label='defaults')
        d.data = DictData(dom=self.ddom, val=self.dval)
        return d

    def make(self, defaults):
        it = self.it
        r = attempt(it, lambda: it.call(member(it, 'pilo.source.configparser', 'SectionMapping'), [self.parser, Sym(self.S), defaults]))
        self.known_patterns()
        it.prove('opening a section does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        return r.value


class Option(Harness):
    """What a section has under a key: a text or a number."""
    covers = ('sub-mapping', 'option', 'default', 'nothing')
    functions = (CFG + 'SectionMapping.__init__', CFG + 'SectionMapping.__getitem__')

    def __init__(self, kind, defaults):
        self.kind, self.d = kind, defaults
        self.name = 'option-%s-%s' % (kind, defaults)
        self.covers = {'str': ('sub-mapping', 'option'), 'int': ()}[kind] + (('default',) if defaults == 'some' else ()) + ('nothing',)

    def run(self, it):
        w = World(it)
        m = w.make(w.defaults(self.d))
        key = Sym(w.N if self.kind == 'str' else z3.Const('index', INT))
        kv = it.to_V(key)
        it.assume(z3.Implies(z3.Select(w.ddom, kv), NONEMPTY(w.ddom)))
        for again in ('', ', again'):
            r = attempt(it, lambda: it.getitem(m, key))
            if self.kind == 'str' and it.branch(w.has_name.f(w.n)):
                it.cover('sub-mapping')
                it.prove('the name of a sub-mapping gives it' + again, r.ok)
                if r.ok:
                    k = Sym(w.K)
                    x = attempt(it, lambda: it.getitem(r.value, k))
                    there = w.has_key.f(w.n)
                    it.prove('it has the keys in brackets' + again, there == x.ok)
                    if x.ok:
                        it.prove('with the text of the option' + again, it.to_V(x.value) == w.sub_text.f(w.n))
                    else:
                        it.prove('and no others' + again, it.exc_matches(x.exc, it.B['KeyError']))
            elif self.kind == 'str' and it.branch(HASOPT(w.S, w.N)):
                it.cover('option')
                it.prove('an option gives its text' + again, r.ok and same(it, r.value, Sym(GETOPT(w.S, w.N))), info="%s %s %s" % (r.value, r.exc, r.exc and r.exc.data))
            elif it.branch(z3.Select(w.ddom, kv)):
                it.cover('default')
                it.prove('else the default' + again, r.ok and it.to_V(r.value) == z3.Select(w.dval, kv))
            else:
                it.cover('nothing')
                it.prove('else it is not there' + again, not r.ok and it.exc_matches(r.exc, it.B['KeyError']))


class Keys(Harness):
    """The keys of a section: its options and the names of its sub-mappings."""
    name = 'section-keys'
    functions = (CFG + 'SectionMapping.__iter__',)
    covers = ('done',)

    def run(self, it):
        w = World(it)
        m = w.make(w.defaults('none'))
        r = attempt(it, lambda: it.call(it.getattr(m, 'keys'), []))
        if r.ok:
            out = it.new_list([], 'listed')
            r = attempt(it, lambda: it.list_extend(out, r.value) or out)
        it.cover('done')
        it.prove('listing does not raise', r.ok)
        if r.ok:
            x = V.str(w.X)
            got = z3.Contains(it.list_term(r.value), z3.Unit(x))
            it.prove('its options and sub-mappings, nothing else', got == z3.Or(w.has_name.f(w.n), w.has_opt.f(w.n)))


class Root(Harness):
    """A source of all sections: what a section name gives, and the names."""
    covers = ('there', 'nothing')
    functions = (CFG + 'ConfigSource.__init__', CFG + 'ConfigSource.path', CFG + 'ConfigPath.__init__', CFG + 'ConfigPath.resolve',
                 CFG + 'Mapping.__init__', CFG + 'Mapping.__getitem__', CFG + 'Mapping.__iter__', CFG + 'ConfigSource.mapping',
                 CFG + 'ConfigSource.sequence')

    def __init__(self, kind, defaults):
        self.kind, self.d = kind, defaults
        self.name = 'root-%s-%s' % (kind, defaults)
        self.covers = ('there', 'nothing') if kind == 'str' else ('nothing',)

    def open(self, it, w, **kw):
        r = attempt(it, lambda: it.call(it.getattr(it.instantiate(member(it, 'pilo.source', 'ConfigSource'), [w.parser], kw), 'path'), []))
        it.prove('opening a source does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        return r.value

    def run(self, it):
        w = World(it)
        opened = []

        def section(it, f, a, k):
            opened.append(a[1:])
            o = a[0]
            it.set_attr_raw(o, 'of', a[2])
            return None
        it.contracts[CFG + 'SectionMapping.__init__'] = section
        defaults, DS = None, None
        inner = z3.Const('defaults_of_section', V)
        if self.d != 'none':
            # the defaults of each section, by its name
            DS = it.new_dict(label='defaults')
            w.ddom, w.dval = z3.Const('defaults.dom', SETS), z3.Const('defaults.val', MAPS)
            DS.data = DictData(dom=w.ddom, val=w.dval)
            defaults = DS
        p = self.open(it, w, defaults=defaults)
        if p is None:
            return
        key = Sym(w.S if self.kind == 'str' else z3.Const('index', INT))
        kv = it.to_V(key)
        if DS is not None:
            it.assume(z3.Implies(z3.Select(w.ddom, kv), NONEMPTY(w.ddom)))
        part = it.instantiate(member(it, 'pilo.source', 'PathPart'), [key], {})
        root = it.getattr(p, 'value')
        r = attempt(it, lambda: it.call(it.getattr(p, 'resolve'), [root, part]))
        it.prove('looking up does not raise', r.ok)
        if not r.ok:
            return
        if self.kind == 'str' and it.branch(HASSEC(w.S)):
            it.cover('there')
            SM = member(it, 'pilo.source.configparser', 'SectionMapping')
            it.prove('a section name gives that section', isinstance(r.value, Obj) and r.value.cls is SM and len(opened) == 1)
            if len(opened) == 1:
                cfg, sec, d = opened[0]
                it.prove('of this parser', cfg is w.parser)
                it.prove('by its name', same(it, sec, Sym(w.S)))
                if DS is not None and it.branch(z3.Select(w.ddom, kv)):
                    it.prove('with its defaults', it.to_V(d) == z3.Select(w.dval, kv))
                else:
                    it.prove('without defaults', same(it, d, None))
        else:
            it.cover('nothing')
            it.prove('anything else is not there', same(it, r.value, w.NONE))


class Sections(Root):
    name = 'root-sections'
    covers = ('done',)

    def __init__(self):
        pass

    def run(self, it):
        w = World(it)
        p = self.open(it, w)
        if p is None:
            return
        seen = PrefixFn('is_section', BOOL, z3.BoolVal(False), lambda k: z3.Or(seen.f(k), V.s(SECTIONS[k]) == w.N), lambda k: [
            z3.Implies(z3.And(k >= 0, k < z3.Length(SECTIONS)), V.is_str(SECTIONS[k]))])
        it.prefix_fns.append(seen)
        it.prefix_facts(z3.IntVal(0), None)
        other = it.extra_cands

        def cands(it, loop):
            out = other(it, loop)
            x = z3.Unit(V.str(w.N))
            for n, t in loop['cur'].items():
                if t.sort() == SEQ and n in loop['entry']:
                    out['section ' + n] = z3.Contains(t, x) == z3.Or(z3.Contains(loop['entry'][n], x), seen.f(loop['k']))
            return out
        it.extra_cands = cands
        r = attempt(it, lambda: it.call(it.getattr(p, 'mapping'), []))
        it.prove('the root is a mapping', r.ok)
        out = it.new_list([], 'listed')
        r = attempt(it, lambda: it.list_extend(out, r.value) or out) if r.ok else r
        it.cover('done')
        it.prove('listing does not raise', r.ok)
        if not r.ok:
            return
        # (membership of the enumerated names themselves, or of a copy made one by one)
        t = it.list_term(out)
        x = z3.Unit(V.str(w.N))
        it.prove('exactly the section names', z3.Or(t == SECTIONS, z3.Contains(t, x) == seen.f(z3.Length(SECTIONS))))
        r = attempt(it, lambda: it.call(it.getattr(p, 'sequence'), []))
        it.prove('it is no sequence', not r.ok and it.exc_matches(r.exc, member(it, 'pilo.source', 'SourceError')))


class Bound(Root):
    """A source bound to one section: its root is that section."""
    name = 'root-bound'
    covers = ('done',)

    def __init__(self):
        pass

    def run(self, it):
        w = World(it)
        it.assume(z3.Length(w.S) > 0)
        opened = []

        def section(it, f, a, k):
            opened.append(a)
            it.set_attr_raw(a[0], 'of', a[2])
            return None
        it.contracts[CFG + 'SectionMapping.__init__'] = section
        d = w.defaults('some')
        p = self.open(it, w, section=Sym(w.S), defaults=d)
        it.cover('done')
        if p is None:
            return
        root = it.getattr(p, 'value')
        SM = member(it, 'pilo.source.configparser', 'SectionMapping')
        it.prove('the root is the section', isinstance(root, Obj) and root.cls is SM and len(opened) == 1 and opened[0][0] is root)
        if len(opened) == 1:
            it.prove('of this parser', opened[0][1] is w.parser)
            it.prove('by its name', same(it, opened[0][2], Sym(w.S)))
            it.prove('with its defaults', opened[0][3] is d)


class Lists(Harness):
    """A text as a sequence: its lines, or its words."""
    functions = (CFG + 'Sequence.__init__', CFG + 'Sequence.__getitem__', CFG + 'Sequence.__len__', CFG + 'ConfigSource.sequence',
                 CFG + 'ConfigPath.resolve')
    covers = ('lines', 'words')

    def __init__(self, how):
        self.how = how
        self.name = 'text-' + how
        if how == 'sequence':
            self.covers = ('lines', 'words', 'no words')

    def run(self, it):
        NONE = member(it, 'pilo', 'NONE')
        it.embedded.add(NONE.oid)
        T = z3.Const('text', STR)
        raw = SPLITLINES(T)
        strip = lambda k: STRFN(z3.StringVal('strip'), V.s(raw[k]), WS)          # noqa: E731
        kept = PrefixFn('kept_lines', SEQ, z3.Empty(SEQ), lambda k: z3.If(z3.Length(strip(k)) > 0, z3.Concat(
            kept.f(k), z3.Unit(V.str(strip(k)))), kept.f(k)), lambda k: [
                z3.Implies(z3.And(k >= 0, k < z3.Length(raw)), V.is_str(raw[k]))])
        it.prefix_fns.append(kept)
        it.prefix_facts(z3.IntVal(0), None)
        parser = it.new(host_class(it, 'NoParser', None, {}), 'parser')
        CP = member(it, 'pilo.source', 'ConfigPath')
        src = it.instantiate(member(it, 'pilo.source', 'ConfigSource'), [parser], {})
        p = it.call(it.getattr(src, 'path'), [])
        it.prove('a path of the source', p.cls is CP)
        several = it.branch(z3.Contains(T, z3.StringVal('\n')))
        want = kept.f(z3.Length(raw)) if several else WORDS(T)
        ok = several or it.branch(WORDS_OK(T))
        it.cover('lines' if several else 'words' if ok else 'no words')
        what = 'its non-empty stripped lines' if several else 'its words'
        if self.how == 'sequence':
            it.call(it.getattr(p, 'append'), ['option'])
            it.setattr(p, 'value', Sym(T))
            r = attempt(it, lambda: it.call(it.getattr(p, 'sequence'), []))
            if ok:
                it.prove('a text is a sequence', r.ok, info=None if r.ok else '%s' % r.exc)
                if r.ok:
                    it.prove('as long as ' + what, it.int_term(r.value) == z3.Length(want))
            r = attempt(it, lambda: it.call(it.getattr(p, 'mapping'), []))
            it.prove('it is no mapping', not r.ok and it.exc_matches(r.exc, member(it, 'pilo.source', 'SourceError')))
        else:
            if not ok:
                return
            i = z3.Const('index', INT)
            n = z3.Length(want)
            it.assume(i >= 0)
            part = it.instantiate(member(it, 'pilo.source', 'PathPart'), [Sym(i)], {})
            r = attempt(it, lambda: it.call(it.getattr(p, 'resolve'), [Sym(T), part]))
            it.prove('an element is looked up without an error', r.ok)
            if not r.ok:
                return
            if it.branch(i < n):
                it.prove('element by element: ' + what, it.to_V(r.value) == want[i])
            else:
                it.prove('and no more', same(it, r.value, NONE))


class Parsed(Harness):
    """A text is parsed, anything else is used as it is."""
    name = 'parsed'
    functions = (CFG + 'ConfigSource.__init__',)
    covers = ('done',)

    def run(self, it):
        T = z3.Const('text', STR)
        read = []
        PF = host_class(it, 'ATextFile', None, {})

        def stringio(it, a, k):
            o = it.new(PF, 'file')
            o.attrs['text'] = a[0]
            return o

        def read_file(it, a, k):
            read.append(a)
            return None
        CPc = host_class(it, 'ConfigParser', None, {'read_file': read_file, 'readfp': read_file})
        it.loader.bi.modules['six'].ns['StringIO'] = BuiltinFn('StringIO', stringio)
        it.loader.bi.modules['configparser'].ns['ConfigParser'] = CPc
        r = attempt(it, lambda: it.instantiate(member(it, 'pilo.source', 'ConfigSource'), [Sym(T)], {}))
        it.cover('done')
        it.prove('it does not raise', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        c = it.getattr(r.value, 'config')
        it.prove('a new parser', isinstance(c, Obj) and c.cls is CPc)
        it.prove('reads the text once', len(read) == 1 and read[0][0] is c and isinstance(read[0][1], Obj) and read[0][1].cls is PF
                 and same(it, read[0][1].attrs['text'], Sym(T)))


HARNESSES = [Option(k, d) for k in ('str', 'int') for d in ('none', 'some')] + [Keys()] + [
    Root(k, d) for k in ('str', 'int') for d in ('none', 'some')] + [Sections(), Bound(), Lists('sequence'), Lists('element'), Parsed()]
