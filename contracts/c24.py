"""C24: derived fields give the constant, the context's variable, the captured group or the formatted text."""
from .fieldlib import *          # noqa: F401,F403
from pyvc.builtins import RE_MATCH, RE_GROUP, RE_HASGROUP

ASSUMPTIONS = ['matching a pattern is a function of the pattern and the text; of a group that takes no part in the match nothing is captured (None)',
               'formatting is a function of the text and the named values, given values it can be formatted with']


class Derived(Harness):
    """Common part: what mapping the field did, against what is due."""
    functions = (FIELDS + 'Field._map', FIELDS + 'Field.map', FIELDS + 'Hook.__call__', FIELDS + 'Hook.attach')
    covers = ('mapped',)

    def mapped(self, it, w, f):
        r = attempt(it, lambda: it.call(it.getattr(f, 'map'), []))
        it.cover('mapped')
        it.prove('mapping does not raise', r.ok)
        w.restored()
        new = w.new_errors()
        it.prove('earlier errors are kept', new is not None)
        return r.value if r.ok else None, new or []

    def is_value(self, it, w, out, new, v):
        it.prove('no error is recorded', not new)
        it.prove('the result is the due value', it.to_V(out) == v)

    def is_invalid(self, it, w, f, out, new, keys, what='Invalid'):
        it.prove('no value', w.no_value(out))
        it.prove('exactly one error is recorded', len(new) == 1)
        if len(new) == 1:
            w.expect_error(new[0], what, f, keys)

    def absent(self, it, w, f, out, new, keys):
        if it.branch(w.ignore_missing):
            it.prove('no value', w.no_value(out))
            it.prove('no error is recorded', not new)
        else:
            self.is_invalid(it, w, f, out, new, keys, 'Missing')

    def name_it(self, it, w, f):
        """The field becomes the field `the_name` of the mapped form."""
        call = it.call(it.getattr(f, 'attach'), [w.form, 'the_name'])
        it.prove('attaching gives back the field', call is f)
        return f


class Constant(Derived):
    """`constant`: of a field of its own, of a field of a form (a new field then), and of one with hooks of its own."""
    functions = Derived.functions + (FIELDS + 'Field.constant', FIELDS + 'Field.clone')

    def __init__(self, cls, attached):
        self.cls, self.attached = cls, attached
        self.name = 'constant-%s-%s' % (cls, 'attached' if attached else 'new')

    def run(self, it):
        w = World(it)
        f = it.instantiate(w.fields[self.cls], ['key'], {})
        hooks = it.choose(2) if self.attached else 0
        if hooks:
            w.register(f, 'compute')
        if self.attached:
            self.name_it(it, w, f)
        v = z3.Const('constant', V)
        it.assume(z3.Not(w.is_marker(v)))
        if self.cls == 'String':
            it.assume(z3.Or(V.is_str(v), V.is_none(v)))
        r = attempt(it, lambda: it.call(it.getattr(f, 'constant'), [it.lift(v)]))
        it.prove('making it constant does not raise', r.ok)
        if not r.ok:
            return
        g = r.value
        if not self.attached:
            it.prove('the field itself is given back', g is f)
        else:
            ok = isinstance(g, Obj) and g is not f and g.cls is w.fields[self.cls]
            it.prove('another field of its class is given', ok)
            it.prove('which belongs to no form yet', ok and it.getattr(g, 'parent') is None)
            it.prove('the field of the form stays as it was', it.getattr(f, 'parent') is w.form and it.getattr(f, 'name') == 'the_name')
            if not ok:
                return
        if g is not f or not self.attached:
            self.name_it(it, w, g)
        out, new = self.mapped(it, w, g)
        self.is_value(it, w, out, new, v)
        it.prove('no hook of the other field is called', not w.trace)
        if self.attached:
            out, new = self.mapped(it, w, f)
            keys = z3.Concat(w.p0, z3.Unit(V.str(z3.StringVal('key'))))
            if hooks:
                w.same_calls([('compute', [], keys)])
                return
            it.prove('the field of the form still reads its source', z3.Implies(
                z3.And(P_EXISTS(keys), z3.Not(P_NULL(keys)), P_OK(keys, z3.StringVal('None' if self.cls == 'Field' else 'str')),
                       z3.Not(w.is_marker(P_PRIM(keys, z3.StringVal('None' if self.cls == 'Field' else 'str'))))),
                it.to_V(out) == P_PRIM(keys, z3.StringVal('None' if self.cls == 'Field' else 'str'))))


class Capture(Derived):
    """`capture`: a text or compiled pattern, with or without a group name."""
    functions = Derived.functions + (FIELDS + 'String.capture',)
    covers = ('mapped', 'captured', 'no match', 'null')

    def __init__(self, how, named):
        self.how, self.named = how, named
        self.name = 'capture-%s-%s' % (how, 'named' if named else 'own-name')

    def run(self, it):
        w = World(it)
        f = it.instantiate(w.fields['String'], ['key'], {})
        first = it.choose(2)
        if first:
            self.name_it(it, w, f)
        re = it.loader.bi.modules['re'].ns
        if self.how == 'text':
            p, pid = 'a(?P<the_name>b)?(?P<group>c)?', it.loader.pattern_id('a(?P<the_name>b)?(?P<group>c)?')
        elif self.how == 'unnamed':
            p, pid = 'a(b)?', it.loader.pattern_id('a(b)?')
        elif self.how == 'bare':
            p, pid = 'a.', it.loader.pattern_id('a.')
        else:
            p = it.call(re['compile'], [Sym(z3.Const('pattern_text', STR))])
            pid = it.loader.bi.patid(it, p)
        args = [p] + (['group'] if self.named else [])
        r = attempt(it, lambda: it.call(it.getattr(f, 'capture'), args))
        it.prove('the field is given back', r.ok and r.value is f)
        if not first:
            self.name_it(it, w, f)
        out, new = self.mapped(it, w, f)
        keys = z3.Concat(w.p0, z3.Unit(V.str(z3.StringVal('key'))))
        if not it.branch(P_EXISTS(keys)):
            self.absent(it, w, f, out, new, keys)
            return
        if it.branch(P_NULL(keys)):
            it.cover('null')
            self.is_value(it, w, out, new, V.none)
            return
        if not it.branch(P_OK(keys, z3.StringVal('str'))):
            self.is_invalid(it, w, f, out, new, keys)
            return
        text = V.s(P_PRIM(keys, z3.StringVal('str')))
        if not it.branch(RE_MATCH(pid, z3.StringVal('match'), text)):
            it.cover('no match')
            self.absent(it, w, f, out, new, keys)
            return
        for g in ('group' if self.named else 'the_name', 1):
            has = {'text': True, 'bare': False, 'unnamed': g == 1}.get(self.how)
            if has is None:
                has = it.branch(RE_HASGROUP(pid, it.to_V(g)))
            if has:
                it.cover('captured')
                self.is_value(it, w, out, new, RE_GROUP(pid, text, it.to_V(g)))
                return
        it.cover('captured')
        self.absent(it, w, f, out, new, keys)


class FromContext(Derived):
    """`from_context`: the variable the field's key names, wherever the context binds it."""
    functions = Derived.functions + (FIELDS + 'Field.from_context',)

    def __init__(self, where, cls='Field'):
        self.where, self.cls = where, cls
        self.name = 'from-context-%s-%s' % (where, cls)
        self.covers = ('mapped', 'text', 'not a text') if cls == 'String' else ('mapped',)

    def run(self, it):
        w = World(it)
        f = it.instantiate(w.fields[self.cls], ['color'] if it.choose(2) else [], {})
        key = it.getattr(f, 'src')
        key = 'the_name' if key is w.NONE else key
        first = it.choose(2)
        if first:
            self.name_it(it, w, f)
        r = attempt(it, lambda: it.call(it.getattr(f, 'from_context'), []))
        it.prove('the field is given back', r.ok and r.value is f)
        if not first:
            self.name_it(it, w, f)
        v = z3.Const('bound', V)
        it.assume(z3.Not(w.is_marker(v)))
        close = None
        if self.where == 'scope':
            close = it.call(it.getattr(w.ctx, 'push'), [], {key: it.lift(v)})
            has = True
        elif self.where == 'frame':
            it.dict_set(w.top, key, it.lift(v))
            has = True
        else:
            has = it.branch(BHAS(w.s0, z3.StringVal(key)))
            if has:
                it.assume(BGET(w.s0, z3.StringVal(key)) == v)
        stack = it.list_term(w.ctx.attrs['stack'])
        r = attempt(it, lambda: it.call(it.getattr(f, 'map'), []))
        it.cover('mapped')
        it.prove('mapping does not raise', r.ok)
        it.prove('the context stack is restored', it.list_term(w.ctx.attrs['stack']) == stack)
        it.prove('the path is restored', keys_of(it, w.path) == w.p0)
        new = w.new_errors()
        it.prove('earlier errors are kept', new is not None)
        if not r.ok or new is None:
            return
        if has and (self.cls == 'Field' or it.branch(z3.Or(V.is_str(v), V.is_none(v)))):
            it.cover('text')
            self.is_value(it, w, r.value, new, v)
            return
        if has:
            it.cover('not a text')
            it.prove('no value', w.no_value(r.value))
            it.prove('exactly one Invalid error', len(new) == 1 and new[0].cls is w.fields['Invalid'])
            return
        it.prove('no value', w.no_value(r.value))
        if it.branch(w.ignore_missing):
            it.prove('no error is recorded', not new)
        else:
            it.prove('exactly one Missing error', len(new) == 1 and new[0].cls is w.fields['Missing'])


class Format(Derived):
    """`format`: named attributes of the form, and attributes of those."""
    functions = Derived.functions + (FIELDS + 'String.format',)
    covers = ('mapped', 'formatted', 'no such attribute')

    def __init__(self, names):
        self.names = names
        self.name = 'format-%s' % ('+'.join(n for _, n in names) or 'nothing')

    def run(self, it):
        w = World(it, form=False)
        trace, failed = [], []

        def thing(path):
            def attr(n):
                def get(it, o):
                    at = path + [n]
                    trace.append('.'.join(at))
                    if it.choose(2):
                        failed.append(1)
                        it.raise_exc('AttributeError', '.'.join(at))
                    if any(f.startswith('.'.join(at) + '.') for _, f in self.names):
                        return thing(at)
                    return Sym(z3.Const('value_' + '_'.join(at), STR))
                return getter(get)
            below = set(f.split('.')[len(path)] for _, f in self.names if f.split('.')[:len(path)] == path)
            return it.new(host_class(it, 'Thing_' + '_'.join(path), None, dict((n, attr(n)) for n in below)), 'thing')
        w.form = thing([])
        it.dict_set(w.top, 'form', w.form)
        it.dict_set(w.top, 'parent', w.form)
        f = it.instantiate(w.fields['String'], ['key'], {})
        first = it.choose(2)
        if first:
            self.name_it(it, w, f)
        fmt = 'id:' + '/'.join('{%s}' % k for k, _ in self.names)
        r = attempt(it, lambda: it.call(it.getattr(f, 'format'), [fmt], dict(self.names)))
        it.prove('the field is given back', r.ok and r.value is f)
        it.prove('nothing is read yet', not trace)
        if not first:
            self.name_it(it, w, f)
        out, new = self.mapped(it, w, f)
        keys = z3.Concat(w.p0, z3.Unit(V.str(z3.StringVal('key'))))
        due = []
        for _, n in self.names:
            parts = n.split('.')
            due += ['.'.join(parts[:i + 1]) for i in range(len(parts))]
        it.prove('only what is named is read', set(trace) <= set(due))
        if not failed:
            it.prove('all that is named is read', set(trace) == set(due))
            it.cover('formatted')
            values = dict((k, Sym(z3.Const('value_' + n.replace('.', '_'), STR))) for k, n in self.names)
            want = ['id:']
            for i, (k, _) in enumerate(self.names):
                want += (['/'] if i else []) + [values[k]]
            self.is_value(it, w, out, new, it.to_V(it.concat_str(want)))
            return
        it.cover('no such attribute')
        self.is_invalid(it, w, f, out, new, keys)


HARNESSES = [Constant(c, a) for c in ('Field', 'String') for a in (False, True)] + \
    [Capture(h, n) for h in ('text', 'unnamed', 'bare', 'compiled') for n in (False, True)] + \
    [FromContext(x, c) for x in ('scope', 'frame', 'below') for c in ('Field', 'String')] + \
    [Format(n) for n in ([('x', 'a')], [('x', 'a.b'), ('y', 'a.c')], [('x', 'a.b.c'), ('y', 'd')])]
