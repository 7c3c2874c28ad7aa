"""C04: key lookup order in native and JSON documents."""
from .common import *          # noqa: F401,F403
from .common import fn         # noqa: F401
from pyvc.values import SPLIT, NONEMPTY, LISTREF, UNLIST

DEFP, JSONP = 'pilo.source.default.DefaultPath.', 'pilo.source.json.JsonPath.'
HASITEM, ITEM = fn('has_item', V, V, BOOL), fn('item', V, V, V)
HASATTR, ATTR = fn('has_attr', V, STR, BOOL), fn('attr', V, STR, V)
CALLED = fn('called', V, V)
LOOK = fn('look_up', V, STR, BOOL, V)           # contract of a key's lookup for shorter keys (induction)
IGNORED = fn('ignored', SEQ, BOOL)
UNFOLD = 2
ASSUMPTIONS = [
    'asking a container for an item or attribute it lacks is a KeyError, IndexError, TypeError or AttributeError; which it has does not change meanwhile',
    'calling what a `()` key names does not raise, and gives what it gives',
    'a container holds no NONE marker of pilo',
    'json.loads gives the document a text denotes',
]


class Lookup(Harness):
    """resolve: one key, in an unknown container."""
    covers = ('done',)

    def __init__(self, src, kind, aliases=False):
        self.src, self.kind, self.aliases = src, kind, aliases
        self.name = 'lookup-%s-%s%s' % (src, kind, '-aliases' if aliases else '')
        m = DEFP if src == 'native' else JSONP
        self.functions = (m + 'resolve',) + tuple(DEFP + x for x in ('_resolve_key', '_resolve', '_as_item', '_as_alias', '_as_attr')
                                                  if src == 'native')

    def world(self, it):
        NONE, NOT_SET = member(it, 'pilo', 'NONE'), member(it, 'pilo', 'NOT_SET')
        it.embedded.update([NONE.oid, NOT_SET.oid])
        none = self.none = it.to_V(NONE)
        self.error = None          # (one kind of error per run, every kind explored)

        def item(it, o, i):
            c, k = it.to_V(o), it.to_V(i)
            if it.branch(HASITEM(c, k)):
                it.assume(ITEM(c, k) != none)          # a document has no markers
                return it.lift(ITEM(c, k))
            self.error = it.choose(3) if self.error is None else self.error
            it.raise_exc(('KeyError', 'IndexError', 'TypeError')[self.error], 'no such item')

        def attr(it, o, name, default):
            c, k = it.to_V(o), it.str_term(name)
            if it.branch(HASATTR(c, k)):
                it.assume(ATTR(c, k) != none)
                return it.lift(ATTR(c, k))
            self.error = it.choose(3) if self.error is None else self.error
            e = self.error % 2
            if e == 0 and default is not MISSING:
                return default
            it.raise_exc(('AttributeError', 'TypeError')[e], 'no such attribute')
        it.ghost['getitem_opaque'] = item
        it.ghost['getattr_dynamic'] = attr
        it.ghost['call_opaque'] = lambda it, f, a, k: it.lift(CALLED(it.to_V(f)))
        self.alias_dom, self.alias_val = z3.Const('alias.dom', SETS), z3.Const('alias.val', MAPS)

    def one(self, c, k, first):
        """What the container itself gives for a key (a V); `first` may be an alias."""
        none = self.none
        item = lambda x: z3.If(z3.And(HASITEM(c, x), ITEM(c, x) != none), ITEM(c, x), none)          # noqa: E731
        if self.src == 'json':
            return item(k)
        alias = z3.If(z3.And(first, z3.Select(self.alias_dom, k)), item(z3.Select(self.alias_val, k)), none) if self.aliases else none
        attr = z3.If(z3.And(V.is_str(k), HASATTR(c, V.s(k))), ATTR(c, V.s(k)), none)
        return z3.If(item(k) != none, item(k), z3.If(alias != none, alias, attr))

    def nested(self, it, c, text, first, i=0):
        """The nested lookup of the parts of a dotted key, one after the other."""
        atoms = SPLIT(text, z3.StringVal('.'))
        none = self.none
        n = z3.Length(atoms)
        D = PrefixFn('nested%s' % (i or ''), V, c, lambda k: z3.If(D.f(k) == none, none, self.one(D.f(k), atoms[k], z3.And(first, k == 0))))
        # lemma (induction): what is under something missing is missing
        x = z3.Int('x')
        it.prove('lemma: missing stays missing', z3.Implies(D.f(x) == none, D.step(x) == none))
        D.extra = lambda k: [z3.Implies(z3.And(D.f(y) == none, y >= 0, y <= n), D.f(n) == none) for y in (k, k + 1)] + [
            z3.Implies(z3.Select(self.alias_dom, atoms[k]), NONEMPTY(self.alias_dom))]
        it.prefix_fns.append(D)
        it.prefix_facts(z3.IntVal(0), None)
        return D.f(n)

    def run(self, it):
        self.world(it)
        none = self.none
        native = self.src == 'native'
        Source = member(it, 'pilo.source', 'DefaultSource' if native else 'JsonSource')
        Path = member(it, 'pilo.source', 'DefaultPath' if native else 'JsonPath')
        Part = member(it, 'pilo.source', 'PathPart')
        src = it.new(Source, 'src')
        src.attrs.update({'data': it.lift(z3.Const('data', V)), 'location': None})
        if native:
            al = None
            if self.aliases:
                al = it.new_dict(label='aliases')
                al.data = DictData(dom=self.alias_dom, val=self.alias_val)
            src.attrs.update({'aliases': al, 'ignores': None})
        p = it.instantiate(Path, [src], {})
        key = z3.Const('key', STR if self.kind == 'str' else INT)
        part = it.instantiate(Part, [Sym(key)], {})
        it.embedded.add(part.oid)
        # the part may be anywhere in the path; a part is in a path once
        pre, post = z3.Const('before', SEQ), z3.Const('after', SEQ)
        me = z3.Unit(it.to_V(part))
        it.assume(z3.And(z3.Not(z3.Contains(pre, me)), z3.Not(z3.Contains(post, me))))
        it.set_attr_raw(p, 'parts', it.new_list([('s', pre, Part), ('e', part), ('s', post, Part)], 'parts'))
        upto = z3.Concat(pre, me)

        def ignore(it, f, a, k):
            return it.lift(IGNORED(it.list_term(a[1])))
        it.contracts['pilo.source.default.DefaultSource.ignore'] = ignore
        c = z3.Const('container', V)
        it.assume(c != none)
        first = z3.Length(pre) == 0
        kv = V.str(key) if self.kind == 'str' else V.int(key)
        it.assume(z3.Implies(z3.Select(self.alias_dom, kv), NONEMPTY(self.alias_dom)))

        def again(it, f, a, k):
            """A key ending in `()` is looked up through its own rest: by induction on the key's length."""
            if k or len(a) != 4 or not isinstance(a[3], (bool, Sym)):
                return NotImplemented
            try:
                cc, t, b = it.to_V(a[1]), it.str_term(a[2]), it.bool_term(a[3])
            except Unsupported:
                return NotImplemented
            it.prove('a shorter key', z3.Length(t) < z3.Length(key))
            return it.lift(LOOK(cc, t, z3.BoolVal(b) if isinstance(b, bool) else b))
        if self.kind == 'str':
            it.ghost['recursion'] = again
            dots = z3.StringVal('()')
            if native:
                # the definition, unfolded a few times (callers may strip more than one `()`)
                def defined(text, n):
                    k = V.str(text)
                    it.assume(z3.Implies(z3.Select(self.alias_dom, k), NONEMPTY(self.alias_dom)))
                    base = self.one(c, k, first)
                    plain = z3.If(base != none, base, self.nested(it, c, text, first, n))
                    rest = z3.SubString(text, 0, z3.Length(text) - 2)
                    inner = LOOK(c, rest, first)
                    return z3.If(z3.SuffixOf(dots, text), z3.If(inner == none, none, CALLED(inner)), plain)
                want = defined(key, 0)
                t = key
                for i in range(1, UNFOLD + 1) if it.bound is not None else ():
                    t = z3.SubString(t, 0, z3.Length(t) - 2)
                    it.assume(z3.Implies(z3.Length(t) > 0, LOOK(c, t, first) == defined(t, i)))
                if it.bound is not None:
                    it.assume(z3.Not(z3.SuffixOf(dots, t)))          # (the bounded rerun: so many `()`)
                want = z3.If(IGNORED(upto), none, want)
            else:
                self.deep = self.nested(it, c, key, z3.BoolVal(False))
                want = z3.If(z3.Contains(key, z3.StringVal('.')), self.deep, self.one(c, kv, first))
        else:
            want = self.one(c, kv, first)
            if native:
                want = z3.If(IGNORED(upto), none, want)

        def cands(it, loop):
            out = {}
            for nm, x in sorted(loop['sc'].vars.items()):
                if isinstance(x, bool) or isinstance(x, Sym) and x.kind == 'Bool':
                    b = z3.BoolVal(x) if isinstance(x, bool) else x.t
                    out['first ' + nm] = b == z3.And(first, loop['k'] == 0)
                elif isinstance(x, Sym) and x.kind == 'V':
                    out['there ' + nm] = x.t != none
            return out
        it.extra_cands = cands
        keys0 = it.field_array('key') if hasattr(it, 'field_array') and 'key' in it.fields else None
        r = attempt(it, lambda: it.call(it.getattr(p, 'resolve'), [it.lift(c), part]))
        it.cover('done')
        it.prove('a key is looked up without an error', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        it.prove('a key is looked up in the stated order', it.to_V(r.value) == want)
        it.prove('the keys are left alone', it.list_term(p.attrs['parts']) == z3.Concat(pre, me, post))
        it.prove('this one too', same(it, it.getattr(part, 'key'), Sym(key)))


class Ignore(Harness):
    """Which paths are ignored: any path, a stated number of ignore patterns with any texts."""
    functions = ('pilo.source.default.DefaultSource.__init__', 'pilo.source.default.DefaultSource.ignore')
    covers = ('done',)

    def __init__(self, n):
        self.n = n
        self.name = 'ignore-%s-patterns' % n
        self.bounded = n not in (None, 0, 'any')

    def run(self, it):
        Part = member(it, 'pilo.source', 'PathPart')
        Part.ns['__opaque_attrs__'] = {'key': 'V', 'value': 'V'}
        texts = [z3.Const('pattern%d' % i, STR) for i in range(self.n if isinstance(self.n, int) else 0)]
        given = None if self.n is None else it.list_of([Sym(t) for t in texts])
        if self.n == 'any':
            self.any_number(it, Part)
            return
        data = it.lift(z3.Const('data', V))
        src = it.instantiate(member(it, 'pilo.source', 'DefaultSource'), [data], {'ignores': given})
        parts = z3.Const('path', SEQ)
        KEY = z3.Const('fld0_key', MAPS)
        it.field_array('key')
        key = lambda k: z3.Select(it.field_array('key'), parts[k])          # noqa: E731
        keys = PrefixFn('keys', SEQ, z3.Empty(SEQ), lambda k: z3.Concat(keys.f(k), z3.Unit(key(k))), lambda k: [
            z3.Implies(z3.And(k >= 0, k < z3.Length(parts)), z3.Or(V.is_str(key(k)), V.is_int(key(k)))), z3.Implies(k >= 0, z3.Length(keys.f(k)) == k)])
        it.prefix_fns.append(keys)
        it.prefix_facts(z3.IntVal(0), None)
        r = attempt(it, lambda: it.call(it.getattr(src, 'ignore'), [it.new_list([('s', parts, Part)], 'parts')]))
        it.cover('done')
        it.prove('it does not raise', r.ok)
        if not r.ok:
            return
        ks = keys.f(z3.Length(parts))
        t = it.truth_term(r.value) if hasattr(it, 'truth_term') else None
        if t is None:
            t = z3.BoolVal(r.value) if isinstance(r.value, bool) else r.value.t
        pats = [SPLIT(x, z3.StringVal('.')) for x in texts]
        it.prove('a path is ignored when its keys equal a pattern', z3.Implies(z3.Or([z3.BoolVal(False)] + [ks == x for x in pats]), t))
        # (what is under something that is not there is not there: the lookup from the root, C03)
        it.prove('and only then, or when a path above it is', z3.Implies(t, z3.Or([z3.BoolVal(False)] + [z3.PrefixOf(x, ks) for x in pats])))
        it.prove('the patterns given are left alone', given is None or it.list_term(given) == z3.Concat(
            [z3.Empty(SEQ), z3.Empty(SEQ)] + [z3.Unit(V.str(x)) for x in texts]))
        it.prove('the data is the one given', same(it, it.getattr(src, 'data'), data))


    def any_number(self, it, Part):
        it.ghost['value_lists'] = True
        texts, parts = z3.Const('patterns', SEQ), z3.Const('path', SEQ)
        given = it.new_list([('s', texts, it.B['str'])], 'patterns')
        it.field_array('key')
        key = lambda k: z3.Select(it.field_array('key'), parts[k])          # noqa: E731
        keys = PrefixFn('keys', SEQ, z3.Empty(SEQ), lambda k: z3.Concat(keys.f(k), z3.Unit(key(k))), lambda k: [
            z3.Implies(z3.And(k >= 0, k < z3.Length(parts)), z3.Or(V.is_str(key(k)), V.is_int(key(k))))])
        ks = keys.f(z3.Length(parts))
        one = lambda k: SPLIT(V.s(texts[k]), z3.StringVal('.'))          # noqa: E731
        hit = PrefixFn('some_pattern', BOOL, z3.BoolVal(False), lambda k: z3.Or(hit.f(k), one(k) == ks), lambda k: [
            z3.Implies(z3.And(k >= 0, k < z3.Length(texts)), V.is_str(texts[k]))])
        above = PrefixFn('some_pattern_above', BOOL, z3.BoolVal(False), lambda k: z3.Or(above.f(k), z3.PrefixOf(one(k), ks)), lambda k: [
            z3.Implies(hit.f(k), above.f(k))])
        it.prefix_fns += [keys, hit, above]
        it.prefix_facts(z3.IntVal(0), None)
        x = z3.Int('x')
        it.prove('lemma: a pattern that equals the keys is one of them or above them', z3.Implies(
            z3.And(z3.Implies(hit.f(x), above.f(x)), hit.step(x)), above.step(x)))
        me = V.ref(LISTREF(ks))
        it.assume(UNLIST(LISTREF(ks)) == ks)

        def cands(it, loop):
            out = {}
            for n, t in loop['cur'].items():
                if t.sort() == SEQ:
                    out['hit ' + n] = z3.Contains(t, z3.Unit(me)) == hit.f(loop['k'])
            return out
        it.extra_cands = cands
        data = it.lift(z3.Const('data', V))
        src = it.instantiate(member(it, 'pilo.source', 'DefaultSource'), [data], {'ignores': given})
        r = attempt(it, lambda: it.call(it.getattr(src, 'ignore'), [it.new_list([('s', parts, Part)], 'parts')]))
        it.cover('done')
        it.prove('it does not raise', r.ok)
        if not r.ok:
            return
        t = z3.BoolVal(r.value) if isinstance(r.value, bool) else it.truth_term(r.value) if hasattr(it, 'truth_term') else r.value.t
        n = z3.Length(texts)
        it.prove('a path is ignored when its keys equal a pattern', z3.Implies(hit.f(n), t))
        it.prove('and only then, or when a path above it is', z3.Implies(t, above.f(n)))
        it.prove('the patterns given are left alone', it.list_term(given) == texts)
        it.prove('the data is the one given', same(it, it.getattr(src, 'data'), data))


LOADS = fn('json_document', V, V)
LOADS_OK = fn('json_is_document', V, BOOL)
DECODED = fn('decoded_text', V, V, STR)


class Document(Harness):
    """A JSON source's root is the document its text denotes (decoded, where an encoding is given)."""
    functions = ('pilo.source.json.JsonSource.__init__', 'pilo.source.json.JsonSource.path', JSONP + '__init__')
    covers = ('document', 'no document')

    def __init__(self, kind):
        self.kind = kind
        self.name = 'document-' + kind

    def run(self, it):
        loaded = []

        def decode(it, a, k):
            args = list(a[1:]) + list(k.values())
            return Sym(DECODED(it.to_V(a[0]), it.to_V(args[0] if args else 'utf-8')))

        def loads(it, a, k):
            it.prove('the text is read as JSON', len(a) == 1 and not k)
            t = it.to_V(a[0])
            loaded.append(t)
            if not it.branch(LOADS_OK(t)):
                it.raise_exc('ValueError', 'no document')
            return it.lift(LOADS(t))
        it.loader.bi.modules['json'].ns['loads'] = BuiltinFn('loads', loads)
        raw = it.new(host_class(it, 'RawText', [it.B['bytes']], {'decode': decode}), 'raw')
        enc = Sym(z3.Const('encoding', STR))
        text = Sym(z3.Const('text', STR))
        args, kw, due = {'text': ([text], {}, text), 'text-encoding': ([text], {'encoding': enc}, text), 'text-options': (
            [text], {'strict': Sym(z3.Const('strict', BOOL)), 'location': Sym(z3.Const('location', STR))}, text), 'bytes': (
                [raw], {}, raw), 'bytes-encoding': ([raw, enc], {}, None)}[self.kind]
        due = it.to_V(due) if due is not None else V.str(DECODED(it.to_V(raw), it.to_V(enc)))
        r = attempt(it, lambda: it.instantiate(member(it, 'pilo.source.json', 'JsonSource'), args, kw))
        if not it.branch(LOADS_OK(due)):
            it.cover('no document')
            it.prove('a text that is no document is a value error', not r.ok and it.exc_matches(r.exc, it.B['ValueError']))
            return
        it.cover('document')
        it.prove('a document is read', r.ok, info=None if r.ok else '%s %s' % (r.exc, r.exc.data))
        if not r.ok:
            return
        p = it.call(it.getattr(r.value, 'path'), [])
        it.prove('the root is the document', it.to_V(it.getattr(p, 'value')) == LOADS(due))
        it.prove('no text but its own is read', all(it.entails(t == due) for t in loaded))
        if 'strict' in kw:
            it.prove('strictness is as asked', same(it, it.getattr(r.value, 'strict'), kw['strict']))


HARNESSES = [Document(k) for k in ('text', 'text-encoding', 'text-options', 'bytes', 'bytes-encoding')] + [Lookup('native', k, a) for k in ('str', 'int') for a in (False, True)] + [Lookup('json', k) for k in ('str', 'int')] + [
    Ignore(n) for n in (None, 0, 'any')]
