"""C22: unparsable dates, times, ids, decimals and code are one Invalid error."""
from .fieldlib import *          # noqa: F401,F403
from pyvc.builtins import (DT_OK, DT_VAL, DATEOF, ISO_OK, ISO_VAL, DEC_OK, DEC_VAL, UUID_OK, UUID_VAL, RE_MATCH, RE_GROUP)
from pyvc.values import STRISINT, STRTOINT, STRISFLT, STRTOFLT

ASSUMPTIONS = [
    'which texts strptime, iso8601, decimal, uuid, int and float accept and what they yield is the library\'s (uninterpreted functions)',
    'iso8601 reports a text it cannot parse as ParseError, strptime as ValueError, Decimal as InvalidOperation (TypeError for what is '
    'neither text nor number), UUID as ValueError',
    'executing inline code and importing modules is the interpreter\'s: it yields an object or raises any Exception',
]
INVALID = 'invalid'


class Parsing(Harness):
    functions = (FIELDS + 'Field._map', FIELDS + 'Field.map', FIELDS + 'Field._compute', FIELDS + 'Errors.invalid')
    covers = ('parsed', 'invalid')
    deadline = 200
    cls = 'Field'
    key = z3.Const('src', STR)

    def build(self, it, w):
        return it.instantiate(w.fields[self.cls], [], {})

    def expected(self, it, w, val, text):
        """INVALID, or the term of the value. `val` is the data, `text` its text or None when it has none."""
        raise NotImplementedError

    def typed(self, it, val, module, *names):
        ts = [isa(it, it.lift(val), it.loader.bi.modules[module].ns[n]) for n in names]
        return it.branch(z3.Or([z3.BoolVal(t) if isinstance(t, bool) else t for t in ts]))

    def run(self, it):
        w = World(it)
        keys = z3.Concat(w.p0, z3.Unit(V.str(self.key)))
        tag = lambda s: z3.StringVal(s)       # noqa: E731
        it.assume(P_EXISTS(keys))
        it.assume(z3.Not(P_NULL(keys)))
        # a value that can be read at all is read as itself (C05); what the path holds may be another thing (that of a union does: C16)
        val = P_PRIM(keys, tag('None'))
        it.assume(P_OK(keys, tag('None')))
        it.assume(z3.Not(w.is_marker(val)))
        it.assume(z3.Not(V.is_none(val)))
        # a text is read as a text (C05); others may be, too
        it.assume(z3.Implies(V.is_str(val), z3.And(P_OK(keys, tag('str')), P_PRIM(keys, tag('str')) == val)))
        self.setup(it, w, V.s(P_PRIM(keys, tag('str'))))
        f = self.build(it, w)
        w.attach(f)
        it.set_attr_raw(f, 'src', Sym(self.key))
        r = attempt(it, lambda: it.call(it.getattr(f, 'map'), []))
        it.prove('no exception escapes', r.ok, info=None if r.ok else it.exc_text(r.exc))
        if not r.ok:
            return
        w.restored()
        text = lambda: V.s(P_PRIM(keys, tag('str'))) if it.branch(P_OK(keys, tag('str'))) else None     # noqa: E731
        it.assume(z3.Implies(P_OK(keys, tag('str')), V.is_str(P_PRIM(keys, tag('str')))))
        want = self.expected(it, w, val, text)
        new = w.new_errors()
        it.prove('earlier errors are kept', new is not None)
        if new is None:
            return
        if want is INVALID:
            it.cover('invalid')
            it.prove('exactly one error', len(new) == 1)
            it.prove('no value', w.no_value(r.value))
            if new:
                w.expect_error(new[0], 'Invalid', f, keys)
        else:
            it.cover('parsed')
            it.prove('no error', len(new) == 0)
            it.prove('the parsed value', it.to_V(r.value) == want)

    def setup(self, it, w, text):
        pass


class Dates(Parsing):
    def __init__(self, cls, how):
        self.cls, self.how = cls, how
        self.name = 'parse-%s-%s' % (cls, how)
        self.functions = Parsing.functions + tuple(FIELDS + cls + x for x in ('._parse', '.__init__', '.format'))

    def build(self, it, w):
        h = self.how
        self.fmt = z3.Const('format', STR)
        kw = {}
        if h == 'one':
            it.assume(z3.Length(self.fmt) > 0)
            kw['format'] = Sym(self.fmt)
        elif h in ('iso', 'iso-call'):
            self.fmt = z3.StringVal('iso8601')
            if h == 'iso':
                kw['format'] = 'iso8601'
        elif h == 'empty-list':
            kw['format'] = it.list_of([])
        elif h in ('list', 'tuple2'):
            if h == 'list':
                kw['format'] = it.new_list([('s', self.formats, it.B['str'])], 'formats')
            else:
                kw['format'] = (Sym(z3.Const('format0', STR)), Sym(z3.Const('format1', STR)))
        f = it.instantiate(w.fields[self.cls], [], kw)
        if h == 'call':
            it.assume(z3.Length(self.fmt) > 0)
            it.call(it.getattr(f, 'format'), [Sym(self.fmt)])
        if h == 'iso-call':
            it.call(it.getattr(f, 'format'), ['iso8601'])
        return f

    def fits(self, fmt, text):
        if self.cls == 'Time':
            return DT_OK(z3.StringVal('time'), text, fmt)
        return z3.If(fmt == z3.StringVal('iso8601'), ISO_OK(text), DT_OK(z3.StringVal('datetime'), text, fmt))

    def val(self, fmt, text):
        if self.cls == 'Time':
            return DT_VAL(z3.StringVal('time'), text, fmt)
        t = z3.If(fmt == z3.StringVal('iso8601'), ISO_VAL(text), DT_VAL(z3.StringVal('datetime'), text, fmt))
        return DATEOF(t) if self.cls == 'Date' else t

    def setup(self, it, w, text):
        self.found = None
        if self.how != 'list':
            return
        self.formats = fs = z3.Const('formats', SEQ)
        n = z3.Length(fs)
        fit = lambda k: self.fits(V.s(fs[k]), text)       # noqa: E731
        # either z is the first format that fits, or none does
        self.z = z = z3.Const('first_fit', INT)
        self.found = it.choose(2) == 0
        if self.found:
            it.assume(z3.And(0 <= z, z < n, fit(z), V.is_str(fs[z])))
            fact = lambda k: [z3.Implies(z3.And(0 <= k, k < z), z3.Not(fit(k)))]       # noqa: E731
        else:
            fact = lambda k: [z3.Implies(z3.And(0 <= k, k < n), z3.Not(fit(k)))]       # noqa: E731
        it.prefix_fns.append(PrefixFn('visited', INT, z3.IntVal(0), lambda k: k + 1, fact))
        if self.found:
            it.extra_cands = lambda it, loop: {'not past the first fit': loop['k'] <= z}

    def expected(self, it, w, val, text):
        names = {'Date': ('datetime', 'date'), 'Datetime': ('datetime', 'datetime')}
        if self.cls == 'Time':
            if self.typed(it, val, 'datetime', 'time') or self.typed(it, val, 'time', 'struct_time'):
                return val
        elif self.typed(it, val, *names[self.cls]):
            return val
        t = text()
        if t is None or self.how in ('none', 'empty-list'):
            return INVALID
        if self.how == 'tuple2':
            for i in (0, 1):
                fm = z3.Const('format%d' % i, STR)
                if it.branch(self.fits(fm, t)):
                    return self.val(fm, t)
            return INVALID
        if self.how == 'list':
            return self.val(V.s(self.formats[self.z]), t) if self.found else INVALID
        return self.val(self.fmt, t) if it.branch(self.fits(self.fmt, t)) else INVALID


class Uuids(Parsing):
    cls = 'UUID'
    name = 'parse-UUID'
    functions = Parsing.functions + (FIELDS + 'UUID._parse',)

    def expected(self, it, w, val, text):
        if self.typed(it, val, 'uuid', 'UUID'):
            return val
        t = text()
        if t is None or not it.branch(UUID_OK(V.str(t))):
            return INVALID
        return UUID_VAL(V.str(t))


class Decimals(Parsing):
    cls = 'Decimal'
    name = 'parse-Decimal'
    functions = Parsing.functions + (FIELDS + 'Decimal._parse',)

    def expected(self, it, w, val, text):
        if self.typed(it, val, 'decimal', 'Decimal'):
            return val
        if self.typed(it, val, 'numbers', 'Number'):
            if it.branch(z3.Or(V.is_int(val), V.is_bool(val), V.is_flt(val))):
                return DEC_VAL(val)
            return DEC_VAL(val) if it.branch(DEC_OK(val)) else INVALID
        t = text()
        if t is None or not it.branch(DEC_OK(V.str(t))):
            return INVALID
        return DEC_VAL(V.str(t))


class Patterns(Parsing):
    def __init__(self, cls, how):
        self.cls, self.how = cls, how
        self.name = 'pattern-%s-%s' % (cls, how)
        self.functions = Parsing.functions + (FIELDS + cls + '.pattern',)

    def build(self, it, w):
        f = it.instantiate(w.fields[self.cls], [], {})
        re = it.loader.bi.modules['re'].ns
        if self.how == 'text':
            p = 'a.c'
            self.pid = it.loader.pattern_id('a.c')
        else:
            p = it.call(re['compile'], [Sym(z3.Const('pattern_text', STR))])
            self.pid = it.loader.bi.patid(it, p)
        it.call(it.getattr(f, 'pattern'), [p])
        return f

    def expected(self, it, w, val, text):
        t = text()
        if t is None or not it.branch(RE_MATCH(self.pid, z3.StringVal('match'), t)):
            return INVALID
        g = V.s(RE_GROUP(self.pid, t, V.int(z3.IntVal(0))))
        ok, conv = (STRISINT, lambda x: V.int(STRTOINT(x))) if self.cls == 'Integer' else (STRISFLT, lambda x: V.flt(STRTOFLT(x)))
        return conv(g) if it.branch(ok(g)) else INVALID


MODULE = fn('module_named', V, V)
MODULE_OK = fn('module_exists', V, BOOL)
PACKAGE = fn('top_package_of', V, V)
LOADED = fn('module_loaded', V, BOOL)
CODE_OK = fn('code_runs', STR, BOOL)


class Codes(Parsing):
    """Text with a newline is executed in a new module, other text names something to import."""
    cls = 'Code'
    functions = Parsing.functions + tuple(FIELDS + 'Code.' + x for x in ('_parse', 'inline_match', 'import_match', 'load', 'compile'))

    def __init__(self, how):
        self.how = how
        self.name = 'parse-Code-' + how
        if how == 'other':
            self.covers = ('parsed',)

    def build(self, it, w):
        f = it.instantiate(w.fields['Code'], [], {})
        pat = it.getattr(f, 'pattern')
        self.pid = it.loader.bi.patid(it, pat)
        return f

    def setup(self, it, w, text):
        self.ran = []
        self.made = []
        self.text = text
        path_val = P_PRIM(z3.Concat(w.p0, z3.Unit(V.str(self.key))), z3.StringVal('None'))
        if self.how == 'other':
            it.assume(z3.Not(V.is_str(path_val)))
            return
        it.assume(V.is_str(path_val))
        nl = z3.Contains(text, z3.StringVal('\n'))
        it.assume(nl if self.how == 'inline' else z3.Not(nl))
        if self.how == 'inline':
            mods = host_class(it, 'NewModule', None, {})

            def new_module(it, a, k):
                o = it.new(mods, 'new-module%d' % len(self.made))
                o.attrs['__dict__'] = it.new_dict(label='module-dict%d' % len(self.made))
                self.made.append(o)
                return o

            def exec_(it, a, k):
                self.ran.append(a)
                if not it.branch(CODE_OK(it.str_term(a[0]))):
                    it.raise_exc(['KeyError', 'SyntaxError', 'ValueError'][it.choose(3)], 'bad code')
            it.ghost['ext:imp.new_module'] = new_module
            it.ghost['ext:exec'] = exec_
            return

        def load(it, name):
            t = it.to_V(it.narrow(name))
            if not it.branch(V.is_str(t)):
                it.raise_exc(['TypeError', 'AttributeError'][it.choose(2)], 'module name')
            if not it.branch(MODULE_OK(t)):
                it.raise_exc(['ImportError', 'ValueError', 'KeyError', 'TypeError'][it.choose(4)], 'no module')
            it.assume(LOADED(t))
            return t

        def import_(it, a, k):
            t = load(it, a[0])
            names = k.get('fromlist', a[3] if len(a) > 3 else None)
            if names is not None and it.truth(names):
                return it.lift(MODULE(t))
            # of a dotted name the interpreter answers the package the module is in, not the module
            return it.lift(z3.If(z3.Contains(V.s(t), z3.StringVal('.')), PACKAGE(t), MODULE(t)))

        def in_modules(it, a, k):
            t = it.to_V(it.narrow(a[1]))
            if not it.branch(z3.And(V.is_str(t), LOADED(t))):
                if len(a) > 2:
                    return a[2]
                it.raise_exc('KeyError', 'not imported')
            return it.lift(MODULE(t))
        modules = it.new(host_class(it, 'Modules', None, {
            '__getitem__': in_modules, 'get': lambda it, a, k: in_modules(it, a if len(a) > 2 else list(a) + [None], k)}), 'sys.modules')
        it.loader.bi.modules['sys'].ns['modules'] = modules
        it.ghost['ext:importlib.import_module'] = lambda it, a, k: it.lift(MODULE(load(it, a[0])))

        def attr(it, o, name, default):
            t, n = it.to_V(o), it.str_term(name)
            if not it.branch(HASATTR(t, n)):
                if default is not MISSING:
                    return default
                it.raise_exc('AttributeError', 'no attribute')
            return it.lift(GETATTR(t, n))
        it.ghost['ext:import'] = import_
        it.ghost['getattr_dynamic'] = attr
        it.ghost['getattr_opaque'] = lambda it, o, n: Sym(z3.Const('module_name', STR)) if n == '__name__' else MISSING

    def run(self, it):
        if self.how == 'import':
            # ghost: what the first k parts of the dotted name resolve to, and the first part that is missing (if any)
            from pyvc.values import SPLIT
            Code = it.loader.modules['pilo.fields'].ns['Code']
            pid = it.loader.bi.patid(it, it.getattr(Code, 'pattern'))
            key = z3.Concat(z3.Const('path0', SEQ), z3.Unit(V.str(self.key)))
            text = V.s(P_PRIM(key, z3.StringVal('None')))
            group = lambda g: RE_GROUP(pid, text, V.str(z3.StringVal(g)))       # noqa: E731
            self.matched = RE_MATCH(pid, z3.StringVal('match'), text)
            self.mod, self.attr = group('module'), group('attr')
            self.parts = parts = SPLIT(V.s(self.attr), z3.StringVal('.'))
            n = z3.Length(parts)
            at = lambda k: V.s(parts[k])       # noqa: E731
            res = PrefixFn('resolved', V, MODULE(self.mod), lambda k: GETATTR(res.f(k), at(k)))
            self.res, self.n = res, n
            has = lambda k: HASATTR(res.f(k), at(k))       # noqa: E731
            self.z = z = z3.Const('first_missing', INT)
            self.whole = it.choose(2) == 0
            if self.whole:
                res.extra = lambda k: [z3.Implies(z3.And(0 <= k, k < n), has(k))]
            else:
                it.assume(z3.And(0 <= z, z < n, z3.Not(has(z))))
                res.extra = lambda k: [z3.Implies(z3.And(0 <= k, k < z), has(k))]
                it.extra_cands = lambda it, loop: {'not past the first missing': loop['k'] <= z}
            # the attr group is not optional in the pattern
            it.assume(V.is_str(self.attr))
            it.prefix_fns.append(res)
            for m in ('NONE', 'ERROR', 'NOT_SET'):
                o = member(it, 'pilo', m)
                it.embedded.add(o.oid)
                it.assume(res.f(n) != it.to_V(o))        # (not one of pilo's own markers)
        Parsing.run(self, it)

    def expected(self, it, w, val, text):
        if self.how == 'other':
            return val
        if self.how == 'inline':
            it.prove('the code is executed exactly once', len(self.ran) == 1)
            if len(self.ran) != 1:
                return INVALID
            it.prove('the code executed is the text', it.str_term(self.ran[0][0]) == self.text)
            if not it.branch(CODE_OK(self.text)):
                return INVALID
            it.prove('in the namespace of the module', len(self.made) == 1 and len(self.ran[0]) > 1 and
                     self.ran[0][1] is self.made[0].attrs['__dict__'])
            return it.to_V(self.made[0]) if self.made else INVALID
        if not it.branch(self.matched) or not it.branch(z3.And(V.is_str(self.mod), MODULE_OK(self.mod))) or not self.whole:
            return INVALID
        return self.res.f(self.n)


HARNESSES = [Dates('Date', h) for h in ('none', 'one', 'iso', 'call', 'iso-call', 'empty-list', 'list', 'tuple2')] + \
            [Dates('Datetime', h) for h in ('none', 'one', 'iso', 'call', 'iso-call')] + \
            [Dates('Time', h) for h in ('none', 'one', 'call')] + [Uuids(), Decimals()] + \
            [Patterns(c, h) for c in ('Integer', 'Float') for h in ('text', 'compiled')] + [Codes(h) for h in ("other", "inline", "import")]
