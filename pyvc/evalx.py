"""Expression and statement semantics."""
import ast
import z3
from .values import *          # noqa: F401,F403
from .interp import Scope, LoopSite, LoopFrame, INLINE_DEPTH


def assigned_names(node):
    """Names bound by the statements below `node` in the same function scope."""
    out = set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                visit(g.iter)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            visit(c)

    if isinstance(node, list):
        for n in node:
            visit(n)
    else:
        visit(node)
    return out


def has_yield(fnode):
    def visit(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        return any(visit(c) for c in ast.iter_child_nodes(n))
    return any(visit(s) for s in (fnode.body if isinstance(fnode.body, list) else [fnode.body]))


_fn_cache = {}


def fn_info(node):
    k = id(node)
    if k not in _fn_cache:
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            params.append(a.vararg.arg)
        if a.kwarg:
            params.append(a.kwarg.arg)
        body = node.body if isinstance(node.body, list) else []
        loc = assigned_names(body) | set(params)
        gl, nl = set(), set()

        def visit(n):
            if isinstance(n, ast.Global):
                gl.update(n.names)
            if isinstance(n, ast.Nonlocal):
                nl.update(n.names)
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                return
            for c in ast.iter_child_nodes(n):
                visit(c)
        for s in body:
            visit(s)
        if isinstance(node, ast.Lambda):
            for n in ast.walk(node.body):
                if isinstance(n, ast.NamedExpr):
                    loc.add(n.target.id)
        _fn_cache[k] = (node, loc - gl - nl, gl, nl, has_yield(node))
    return _fn_cache[k][1:]


class EvalMixin(object):

    # ------------------------------------------------------------ names
    def load_name(self, name, sc):
        s = sc
        while s is not None:
            if s.klass is not None and s is not sc:
                s = s.parent
                continue
            if name in s.vars:
                v = s.vars[name]
                if v is POISON:
                    raise Unsupported('use of loop variable %s with unknown value' % name)
                return v
            if s.locals is not None and name in s.locals and s.klass is None:
                self.raise_exc('UnboundLocalError', name)
            s = s.parent
        m = sc.module
        if name in m.ns:
            return m.ns[name]
        if name in self.builtins:
            return self.builtins[name]
        self.raise_exc('NameError', name)

    def store_name(self, name, value, sc):
        if name in sc.globals_:
            sc.module.ns[name] = value
            return
        if name in sc.nonlocals:
            s = sc.parent
            while s is not None:
                if s.klass is None and (name in s.vars or (s.locals and name in s.locals)):
                    if self.loops:
                        raise Unsupported('nonlocal assignment inside a cut loop')
                    s.vars[name] = value
                    return
                s = s.parent
            raise Unsupported('nonlocal %s' % name)
        if sc.locals is None and sc.parent is None and sc.klass is None:
            sc.module.ns[name] = value      # module level
        else:
            sc.vars[name] = value

    # ------------------------------------------------------------ expressions
    def ev(self, n, sc):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        prev, self.cur = self.cur, n
        try:
            return m(n, sc)
        finally:
            self.cur = prev

    def ev_Constant(self, n, sc):
        return n.value

    def ev_Name(self, n, sc):
        return self.load_name(n.id, sc)

    def ev_Attribute(self, n, sc):
        return self.getattr(self.ev(n.value, sc), n.attr)

    def ev_Tuple(self, n, sc):
        return tuple(self.ev_items(n.elts, sc))

    def ev_items(self, elts, sc):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.to_host_list(self.ev(e.value, sc)))
            else:
                out.append(self.ev(e, sc))
        return out

    def ev_List(self, n, sc):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            o = self.new_list()
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    self.list_extend(o, self.ev(e.value, sc))
                else:
                    o.data.chunks.append(('e', self.ev(e, sc)))
            return o
        return self.list_of(self.ev_items(n.elts, sc))

    def ev_Set(self, n, sc):
        return self.new_set(self.ev_items(n.elts, sc))

    def ev_Dict(self, n, sc):
        d = self.new_dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(d, self.ev(v, sc))
            else:
                kk = self.ev(k, sc)
                self.dict_set(d, kk, self.ev(v, sc))
        return d

    def ev_Lambda(self, n, sc):
        return self.make_func(n, sc, '<lambda>')

    def make_func(self, n, sc, name):
        defaults = [self.ev(d, sc) for d in n.args.defaults]
        kwd = [self.ev(d, sc) if d is not None else MISSING for d in n.args.kw_defaults]
        parent = sc
        if sc.klass is not None:
            owner = sc.klass
        else:
            owner = None
        if sc.parent is None and sc.locals is None and sc.klass is None:
            parent = None
        f = FuncVal(n, parent, sc.module, defaults, kwd, name)
        f.owner_scope = sc if owner is not None else (sc.func.owner_scope if sc.func is not None else None)
        return f

    def ev_IfExp(self, n, sc):
        return self.ev(n.body if self.truth(self.ev(n.test, sc)) else n.orelse, sc)

    def ev_BoolOp(self, n, sc):
        is_and = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.ev(e, sc)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if t != is_and:
                return v
        return v

    def ev_UnaryOp(self, n, sc):
        v = self.ev(n.operand, sc)
        if isinstance(n.op, ast.Not):
            b = self.bool_term(v)
            if isinstance(b, bool):
                return not b
            return self.lift(z3.Not(b))
        v = self.narrow(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, Sym) and v.kind == 'Int':
                return self.lift(-v.t)
            if isinstance(v, Sym) and v.kind == 'Flt':
                return self.lift(z3.fpNeg(v.t))
        if isinstance(n.op, ast.UAdd) and isinstance(v, (int, float)) and not isinstance(v, bool):
            return v
        raise Unsupported('unary %s on %r' % (type(n.op).__name__, v))

    def ev_BinOp(self, n, sc):
        a = self.ev(n.left, sc)
        b = self.ev(n.right, sc)
        return self.binop(type(n.op).__name__, a, b)

    def ev_Compare(self, n, sc):
        a = self.ev(n.left, sc)
        res = None
        for i, (op, e) in enumerate(zip(n.ops, n.comparators)):
            b = self.ev(e, sc)
            r = self.compare(type(op).__name__, a, b)
            if i == len(n.ops) - 1:
                return r
            if not self.truth(r):
                return r
            a = b
        return res

    def ev_Subscript(self, n, sc):
        o = self.ev(n.value, sc)
        return self.getitem(o, self.ev_index(n.slice, sc))

    def ev_index(self, s, sc):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x, sc) for x in (s.lower, s.upper, s.step)])
        return self.ev(s, sc)

    def ev_Starred(self, n, sc):
        raise Unsupported('starred expression')

    def ev_JoinedStr(self, n, sc):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, sc)
                if v.format_spec is not None:
                    raise Unsupported('format spec')
                parts.append(self.py_repr(x) if v.conversion == 114 else self.py_str(x))
        return self.concat_str(parts)

    def ev_FormattedValue(self, n, sc):
        return self.py_str(self.ev(n.value, sc))

    def ev_NamedExpr(self, n, sc):
        v = self.ev(n.value, sc)
        self.store_name(n.target.id, v, sc)
        return v

    def ev_Yield(self, n, sc):
        v = None if n.value is None else self.ev(n.value, sc)
        s = sc
        while s.yields is None:
            s = s.parent
        if callable(s.yields):
            s.yields(v)
            return None
        self.list_append(s.yields, v)
        return None

    def ev_YieldFrom(self, n, sc):
        v = self.ev(n.value, sc)
        s = sc
        while s.yields is None:
            s = s.parent
        if callable(s.yields):
            raise Unsupported('yield from in a context manager')
        self.list_extend(s.yields, v)
        return None

    # ------------------------------------------------------------ comprehensions
    def comp_scope(self, sc, n):
        loc = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    loc.add(x.id)
        s = Scope(sc.module, sc, loc, sc.func)
        if sc.klass is not None:
            s.parent = sc.parent
            s.vars.update({k: v for k, v in sc.vars.items() if k not in loc})
        return s

    def comp(self, n, sc, emit, carried=None):
        s = self.comp_scope(sc, n)
        s.vars.update(carried or {})

        def level(i):
            if i == len(n.generators):
                emit(s)
                return
            g = n.generators[i]
            it = self.iterate(self.ev(g.iter, sc if i == 0 else s))

            def body(v):
                self.assign(g.target, v, s)
                for c in g.ifs:
                    if not self.truth(self.ev(c, s)):
                        raise Continue()
                level(i + 1)
            self.run_loop(g, it, body, s, assigned_names([ast.Expr(g.target)]) | self.target_names(g.target) | set(carried or {}))
        level(0)
        return s

    def target_names(self, t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}

    def ev_ListComp(self, n, sc):
        out = self.new_list()
        self.comp(n, sc, lambda s: self.list_append(out, self.ev(n.elt, s)))
        return out

    def ev_GeneratorExp(self, n, sc):
        out = self.new_list()
        self.comp(n, sc, lambda s: self.list_append(out, self.ev(n.elt, s)))
        return self.iterate(out)

    def ev_SetComp(self, n, sc):
        out = self.new_set()
        self.comp(n, sc, lambda s: self.set_add(out, self.ev(n.elt, s)))
        return out

    def ev_DictComp(self, n, sc):
        out = self.new_dict()

        def emit(s):
            k = self.ev(n.key, s)
            self.dict_set(out, k, self.ev(n.value, s))
        self.comp(n, sc, emit)
        return out

    # ------------------------------------------------------------ calls
    def ev_Call(self, n, sc):
        f = self.ev(n.func, sc)
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and f is self.builtins['super'] and not n.args:
            s = sc
            while s.func is None or not getattr(s.func, 'owner', None):
                s = s.parent
                if s is None:
                    raise Unsupported('super() outside a method')
            first = s.func.node.args.args[0].arg
            return SuperV(s.func.owner, s.vars[first])
        if (isinstance(f, BuiltinFn) and len(n.args) == 1 and not n.keywords and
                isinstance(n.args[0], ast.GeneratorExp) and f.name in ('any', 'all')):
            return self.any_all(f.name, n.args[0], sc)
        if isinstance(f, BuiltinFn) and f.name == 'sum' and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
            def add(s):
                s.vars['.sum'] = self.binop('Add', s.vars['.sum'], self.ev(n.args[0].elt, s))
            return self.comp(n.args[0], sc, add, {'.sum': 0}).vars['.sum']
        if f is self.B['dict'] and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
            out = self.new_dict()

            def put(s):
                k, v = self.unpack(self.ev(n.args[0].elt, s), 2)
                self.dict_set(out, k, v)
            self.comp(n.args[0], sc, put)
            return out
        if (isinstance(f, BuiltinFn) and f.name == 'next' and n.args and isinstance(n.args[0], ast.GeneratorExp)):
            return self.next_gen(n, sc)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.star_args(self.ev(a.value, sc)))
            else:
                args.append(self.ev(a, sc))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, sc)
                for kk, vv in self.star_kwargs(d):
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, sc)
        return self.call(f, args, kwargs)

    def star_args(self, v):
        v = self.narrow(v)
        if self.bound is None and isinstance(v, Obj) and isinstance(v.data, ListData) and not v.data.concrete:
            n = z3.simplify(self.int_term(self.list_len(v)))
            if not z3.is_int_value(n):
                return [Star(v)]          # only a *parameter can take it
        return self.to_host_list(v)

    def star_kwargs(self, d):
        if isinstance(d, Obj) and isinstance(d.data, DictData) and d.data.concrete:
            return list(d.data.items.items())
        if self.bound is None and isinstance(d, Obj) and isinstance(d.data, DictData):
            return [('**', d)]          # only a **parameter can take it
        raise Unsupported('** of %r' % (d,))

    def any_all(self, which, gen, sc):
        def emit(s):
            t = self.truth(self.ev(gen.elt, s))
            if t == (which == 'any'):
                raise Return(which == 'any')
        try:
            self.comp(gen, sc, emit)
        except Return as r:
            return r.value
        return which == 'all'

    def next_gen(self, n, sc):
        gen = n.args[0]

        def emit(s):
            raise Return(self.ev(gen.elt, s))
        try:
            self.comp(gen, sc, emit)
        except Return as r:
            return r.value
        if len(n.args) > 1:
            return self.ev(n.args[1], sc)
        self.raise_exc('StopIteration')

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if '**' in kwargs and not isinstance(f, (FuncVal, ClassVal, BoundMethod)):
            raise Unsupported('** of unknown keys')
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, BuiltinFn):
            if any(isinstance(x, Star) for x in args):
                raise Unsupported('an argument list of unknown length')
            return f.fn(self, args, kwargs)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kwargs)
        if isinstance(f, Obj):
            m = f.cls.lookup('__call__')
            if m is MISSING:
                self.raise_exc('TypeError', 'object is not callable')
            return self.call(m, [f] + list(args), kwargs)
        if isinstance(f, Sym) and f.cls is not None:
            m = f.cls.lookup('__call__')
            if m is not MISSING:
                return self.call(m, [f] + list(args), kwargs)
        if isinstance(f, Sym):
            h = self.ghost.get('call_opaque')
            if h is not None:
                return h(self, f, args, kwargs)
        if is_prim(f) or isinstance(f, tuple):
            self.raise_exc('TypeError', 'not callable')
        raise Unsupported('call of %r' % (f,))

    def full_qual(self, f):
        return '%s.%s' % (f.module.name, f.qual)

    def call_func(self, f, args, kwargs):
        q = self.full_qual(f)
        c = self.contracts.get(q)
        if c is not None:
            self.res.contracts_used.add(q)
            return c(self, f, args, kwargs)
        h = self.ghost.get('recursion')
        if h is not None and f.node in self.active:
            # a recursive call, taken by the contract of the function it is in
            r = h(self, f, args, kwargs)
            if r is not NotImplemented:
                self.res.contracts_used.add(q)
                return r
        return self.inline(f, args, kwargs)

    def inline(self, f, args, kwargs):
        if len(self.callstack) > INLINE_DEPTH:
            raise Unsupported('inlining too deep (recursion without a contract)')
        locs, gl, nl, gen = fn_info(f.node)
        if f.node.__class__ is not ast.Lambda:
            self.res.inlined.add(self.full_qual(f))
        sc = Scope(f.module, f.scope, locs, f)
        sc.globals_, sc.nonlocals = gl, nl
        self.bind(f, args, kwargs, sc)
        n = self.cur
        self.callstack.append('%s:%s' % (f.qual, getattr(n, 'lineno', 0) * 1000 + getattr(n, 'col_offset', 0)
                                         if n is not None else 0))
        prev = self.cur
        self.cur_module_stack.append(f.module)
        self.active.append(f.node)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, sc)
            if gen:
                sc.yields = self.new_list()
                try:
                    self.run_block(f.node.body, sc)
                except Return:
                    pass
                return self.iterate(sc.yields)
            try:
                self.run_block(f.node.body, sc)
            except Return as r:
                return r.value
            return None
        finally:
            self.active.pop()
            self.callstack.pop()
            self.cur_module_stack.pop()
            self.cur = prev

    def bind(self, f, args, kwargs, sc):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        nd = len(f.defaults)
        for i, name in enumerate(pos):
            if args:
                if isinstance(args[0], Star):
                    raise Unsupported('an argument list of unknown length')
                sc.vars[name] = args.pop(0)
                if name in kwargs:
                    self.raise_exc('TypeError', 'multiple values for %s' % name)
            elif name in kwargs:
                sc.vars[name] = kwargs.pop(name)
            elif i >= len(pos) - nd:
                sc.vars[name] = f.defaults[i - (len(pos) - nd)]
            else:
                self.raise_exc('TypeError', '%s() missing argument %s' % (f.name, name))
        if a.vararg:
            if any(isinstance(x, Star) for x in args):
                o = self.new(self.B['tuple'])
                o.data = ListData([c for x in args for c in (x.obj.data.chunks if isinstance(x, Star) else [('e', x)])])
                sc.vars[a.vararg.arg] = o
            else:
                sc.vars[a.vararg.arg] = tuple(args)
            args = []
        if args:
            self.raise_exc('TypeError', '%s() takes too many arguments' % f.name)
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kwargs:
                sc.vars[x.arg] = kwargs.pop(x.arg)
            elif d is not MISSING:
                sc.vars[x.arg] = d
            else:
                self.raise_exc('TypeError', 'missing keyword %s' % x.arg)
        if a.kwarg:
            rest = kwargs.pop('**', None)
            o = sc.vars[a.kwarg.arg] = self.new_dict(dict(kwargs))
            if rest is not None:
                if kwargs:
                    raise Unsupported('** of unknown keys among others')
                o.data = rest.data.copy()
            kwargs = {}
        if '**' in kwargs:
            raise Unsupported('** of unknown keys')
        if kwargs:
            self.raise_exc('TypeError', '%s() got an unexpected keyword argument' % f.name)

    # ------------------------------------------------------------ statements
    def run_block(self, body, sc):
        for s in body:
            self.st(s, sc)

    def st(self, n, sc):
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(n).__name__)
        prev, self.cur = self.cur, n
        try:
            m(n, sc)
        finally:
            self.cur = prev

    def st_Expr(self, n, sc):
        self.ev(n.value, sc)

    def st_Pass(self, n, sc):
        pass

    def st_Return(self, n, sc):
        raise Return(None if n.value is None else self.ev(n.value, sc))

    def st_Break(self, n, sc):
        raise Break()

    def st_Continue(self, n, sc):
        raise Continue()

    def st_Global(self, n, sc):
        sc.globals_ = set(sc.globals_) | set(n.names)

    def st_Nonlocal(self, n, sc):
        pass

    def st_Assign(self, n, sc):
        v = self.ev(n.value, sc)
        for t in n.targets:
            self.assign(t, v, sc)

    def st_AnnAssign(self, n, sc):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, sc), sc)

    def st_AugAssign(self, n, sc):
        op = type(n.op).__name__
        if isinstance(n.target, ast.Name):
            a = self.load_name(n.target.id, sc)
            self.store_name(n.target.id, self.augop(op, a, self.ev(n.value, sc)), sc)
        elif isinstance(n.target, ast.Attribute):
            o = self.ev(n.target.value, sc)
            a = self.getattr(o, n.target.attr)
            self.setattr(o, n.target.attr, self.augop(op, a, self.ev(n.value, sc)))
        else:
            o = self.ev(n.target.value, sc)
            i = self.ev_index(n.target.slice, sc)
            a = self.getitem(o, i)
            self.setitem(o, i, self.augop(op, a, self.ev(n.value, sc)))

    def augop(self, op, a, b):
        if isinstance(a, Obj) and isinstance(a.data, ListData) and op == 'Add':
            self.list_extend(a, b)
            return a
        if isinstance(a, Obj) and isinstance(a.data, SetData) and op == 'BitOr':
            for x in self.to_host_list(b):
                self.set_add(a, x)
            return a
        return self.binop(op, a, b)

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, sc), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            self.setitem(o, self.ev_index(t.slice, sc), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.narrow(v)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                items = self.to_host_list(v)
                i = [j for j, e in enumerate(t.elts) if isinstance(e, ast.Starred)][0]
                after = len(t.elts) - i - 1
                if len(items) < i + after:
                    self.raise_exc('ValueError', 'not enough values to unpack')
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, sc)
                self.assign(t.elts[i].value, self.list_of(items[i:len(items) - after]), sc)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:] if after else []):
                    self.assign(e, x, sc)
                return
            items = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x, sc)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, Sym) and v.kind == 'V' and n in (2, 3):
            t = v.t
            test = V.is_pair(t) if n == 2 else V.is_trip(t)
            if self.entails(test):
                acc = (V.fst, V.snd) if n == 2 else (V.t1, V.t2, V.t3)
                return [self.lift(x(t)) for x in acc]
            raise Unsupported('unpacking an unknown value')
        if isinstance(v, Obj) and isinstance(v.data, ListData) and not v.data.concrete:
            ln = self.list_len(v)
            if self.branch(self.int_term(ln) != n):
                self.raise_exc('ValueError', 'unpack')
            return [self.getitem(v, i) for i in range(n)]
        items = self.to_host_list(v)
        if len(items) != n:
            self.raise_exc('ValueError', 'unpack %d into %d' % (len(items), n))
        return items

    def st_Delete(self, n, sc):
        for t in n.targets:
            if isinstance(t, ast.Name):
                sc.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, sc), t.attr)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, sc)
                self.delitem(o, self.ev_index(t.slice, sc))
            else:
                raise Unsupported('del target')

    def st_If(self, n, sc):
        self.run_block(n.body if self.truth(self.ev(n.test, sc)) else n.orelse, sc)

    def st_Assert(self, n, sc):
        if not self.truth(self.ev(n.test, sc)):
            self.raise_exc('AssertionError')

    def st_Raise(self, n, sc):
        if n.exc is None:
            if not self.handling:
                self.raise_exc('RuntimeError', 'no active exception')
            raise PyRaise(self.handling[-1])
        e = self.ev(n.exc, sc)
        if isinstance(e, ClassVal):
            e = self.instantiate(e, [], {})
        if isinstance(e, Sym):
            raise PyRaise(e)
        if not isinstance(e, Obj):
            self.raise_exc('TypeError', 'exceptions must derive from BaseException')
        raise PyRaise(e)

    def exc_matches(self, exc, types):
        types = self.narrow(types)
        ts = types if isinstance(types, tuple) else (types,)
        for t in ts:
            if isinstance(t, tuple):
                if self.exc_matches(exc, t):
                    return True
                continue
            if not isinstance(t, ClassVal):
                raise Unsupported('except %r' % (t,))
            if self.truth(self.isinstance_(exc, t)):
                return True
        return False

    def st_Try(self, n, sc):
        def inner():
            try:
                self.run_block(n.body, sc)
            except PyRaise as e:
                for h in n.handlers:
                    prev, self.cur = self.cur, h
                    if h.type is None or self.exc_matches(e.exc, self.ev(h.type, sc)):
                        if h.name:
                            self.store_name(h.name, e.exc, sc)
                        self.handling.append(e.exc)
                        try:
                            self.run_block(h.body, sc)
                        finally:
                            self.handling.pop()
                            if h.name:
                                sc.vars.pop(h.name, None)
                        return
                raise
            else:
                self.run_block(n.orelse, sc)
        if not n.finalbody:
            return inner()
        try:
            inner()
        except (PyRaise, Return, Break, Continue):
            self.run_block(n.finalbody, sc)
            raise
        self.run_block(n.finalbody, sc)

    def st_With(self, n, sc):
        def level(i):
            if i == len(n.items):
                self.run_block(n.body, sc)
                return
            it = n.items[i]
            self.cur = n
            cm = self.ev(it.context_expr, sc)
            if isinstance(cm, Obj) and isinstance(cm.ghost, dict) and 'gen' in cm.ghost:
                self.with_generator(cm, it.optional_vars, lambda: level(i + 1), sc)
                return
            ex = self.type_attr(cm, '__exit__')
            en = self.type_attr(cm, '__enter__')
            if ex is MISSING or en is MISSING:
                self.raise_exc('AttributeError', '__enter__')
            v = self.call(en, [cm], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, sc)
            try:
                level(i + 1)
            except PyRaise as e:
                self.cur = n
                if self.truth(self.call(ex, [cm, self.type_of(e.exc), e.exc, None], {})):
                    return
                raise
            except (Return, Break, Continue):
                self.cur = n
                self.call(ex, [cm, None, None, None], {})
                raise
            self.cur = n
            self.call(ex, [cm, None, None, None], {})
        level(0)

    def with_generator(self, cm, target, cont, sc):
        """@contextmanager: run the generator body in place; its `yield` runs the with-body."""
        f, args, kwargs = cm.ghost['gen']
        state = {'n': 0, 'flow': None}

        def hook(v):
            state['n'] += 1
            if state['n'] > 1:
                self.raise_exc('RuntimeError', "generator didn't stop")
            if target is not None:
                self.assign(target, v, sc)
            # the with-body runs in the caller's dynamic context
            try:
                cont()
            except (Return, Break, Continue) as e:
                state['flow'] = e
        self.gen_hooks.append(hook)
        n_handling = len(self.handling)
        try:
            self.inline_gen(f, args, kwargs, hook)
        finally:
            self.gen_hooks.pop()
        if state['n'] == 0:
            self.raise_exc('RuntimeError', "generator didn't yield")
        if state['flow'] is not None:
            raise state['flow']

    def inline_gen(self, f, args, kwargs, hook):
        if isinstance(f, BoundMethod):
            return self.inline_gen(f.func, [f.self_] + list(args), kwargs, hook)
        locs, gl, nl, gen = fn_info(f.node)
        sc = Scope(f.module, f.scope, locs, f)
        sc.globals_, sc.nonlocals = gl, nl
        self.bind(f, args, kwargs, sc)
        sc.yields = hook
        n = self.cur
        self.res.inlined.add(self.full_qual(f))
        self.callstack.append('%s:%s' % (f.qual, getattr(n, 'lineno', 0) * 1000 + getattr(n, 'col_offset', 0)
                                         if n is not None else 0))
        self.cur_module_stack.append(f.module)
        self.active.append(f.node)
        try:
            self.run_block(f.node.body, sc)
        except Return:
            pass
        finally:
            self.active.pop()
            self.callstack.pop()
            self.cur_module_stack.pop()
            self.cur = n

    def st_FunctionDef(self, n, sc):
        f = self.make_func(n, sc, n.name)
        if sc.func is not None and sc.klass is None:
            f.outer = sc.func
        for d in reversed(n.decorator_list):
            f = self.call(self.ev(d, sc), [f], {})
        self.store_name(n.name, f, sc)

    def st_Import(self, n, sc):
        for a in n.names:
            m = self.import_module(a.name, sc)
            if a.asname:
                self.store_name(a.asname, m, sc)
            else:
                top = a.name.split('.')[0]
                self.store_name(top, self.import_module(top, sc), sc)

    def st_ImportFrom(self, n, sc):
        m = self.import_from(n.module, n.level, sc)
        for a in n.names:
            if a.name == '*':
                raise Unsupported('import *')
            self.store_name(a.asname or a.name, self.module_member(m, a.name), sc)

    def st_ClassDef(self, n, sc):
        bases = [self.ev(b, sc) for b in n.bases]
        meta = None
        for k in n.keywords:
            if k.arg == 'metaclass':
                meta = self.ev(k.value, sc)
            else:
                raise Unsupported('class keyword')
        body = Scope(sc.module, sc if (sc.locals is not None or sc.klass is not None) else None, set(), sc.func)
        body.klass = n.name
        body.vars['__module__'] = sc.module.name
        self.run_block(n.body, body)
        c = self.make_class(n.name, bases, body.vars, meta, sc.module, n)
        for d in reversed(n.decorator_list):
            c = self.call(self.ev(d, sc), [c], {})
        self.store_name(n.name, c, sc)

    # ------------------------------------------------------------ loops
    def st_For(self, n, sc):
        it = self.iterate(self.ev(n.iter, sc))

        def body(v):
            self.assign(n.target, v, sc)
            self.run_block(n.body, sc)
        try:
            self.run_loop(n, it, body, sc, assigned_names(n.body) | self.target_names_store(n.target))
        except Break:
            return
        self.run_block(n.orelse, sc)

    def target_names_store(self, t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def st_While(self, n, sc):
        def cond():
            return self.truth(self.ev(n.test, sc))
        try:
            self.run_while(n, cond, lambda: self.run_block(n.body, sc), sc, assigned_names(n.body))
        except Break:
            return
        self.run_block(n.orelse, sc)

    def run_loop(self, node, it, body, sc, names):
        """for-loop over an IterV. Raises Break when the body breaks."""
        n = it.n
        if not isinstance(n, int):
            n = z3.simplify(n)
            if z3.is_int_value(n):
                n = n.as_long()
        if not isinstance(n, int):
            lo = 0
            if self.bound is not None:
                if self.branch(n > self.bound):
                    self.res.truncated = True
                    raise PathEnd()
                c = 0
                while c < self.bound and not self.branch(n == c):
                    c += 1
                self.assume(n == c)
                n = c
                for x in range(c + 1):
                    self.prefix_facts(z3.IntVal(x), it)
            else:
                return self.cut_loop(node, it, n, body, sc, names)
        k = 0
        while k < n:
            if it.src is not None and self.src_len(it.src) != it.src_n and not self.same_length(it, it.src.data):
                raise Unsupported('container mutated while iterated')
            try:
                body(it.get(k))
            except Continue:
                pass
            k += 1

    def src_len(self, src):
        d = src.data
        if isinstance(d, ListData):
            return len(d.chunks)
        if isinstance(d, DictData):
            return len(d.items) if d.items is not None else None
        return None

    def run_while(self, node, cond, body, sc, names):
        if self.bound is not None or True:
            # try concrete unrolling first: conditions that do not fork stay exact
            pass
        return self.cut_while(node, cond, body, sc, names)

    def loop_site(self, node):
        key = (tuple(self.callstack), getattr(node, 'lineno', None) or getattr(node.target, 'lineno', 0),
               getattr(node, 'col_offset', None) if hasattr(node, 'col_offset') else getattr(node.target, 'col_offset', 0))
        s = self.sites.get(key)
        if s is None:
            s = self.sites[key] = LoopSite(key)
        return s

    # -- shapes of havocked locals
    def havoc_value(self, site, name, entry, sc):
        sh = site.shapes.get(name)
        if sh is None:
            sh = self.shape_of(entry)
            site.shapes[name] = sh
        if sh in ('Int', 'Bool', 'Str', 'V'):
            sort = {'Int': INT, 'Bool': BOOL, 'Str': STR, 'V': V}[sh]
            return Sym(self.fresh('loc_' + (name if isinstance(name, str) else '_'.join(map(str, name[2:]))), sort))
        if sh == 'poison':
            return POISON
        if sh == 'list':
            if isinstance(entry, Obj):
                self.require_unique(entry, name, sc)
            o = self.new(self.B['list'], 'havoc:%s:%s' % (name, site.key))
            t = self.fresh('loc_' + (name if isinstance(name, str) else '_'.join(map(str, name[2:]))), SEQ)
            hint = self.list_kind(site, name, entry.data, t) if isinstance(entry, Obj) else None
            o.data = ListData([('s', t, hint)])
            return o
        if sh == 'tuple?':
            raise Unsupported('loop-carried tuple %s' % name)
        raise Unsupported('loop-carried local %s of shape %s' % (name, sh))

    def kind_of(self, d, but=None):
        """The one class all elements of the list content are known to have ('none yet' when there are none, None when unknown)."""
        out = 'none yet'
        for c in d.chunks:
            if c[0] == 's':
                if but is not None and c[1].eq(but) and c[2] is None:
                    continue
                h = c[2]
            else:
                x = c[1]
                h = self.B['str'] if self.is_text(x) else x.cls if isinstance(x, (Obj, Sym)) else None
            h = None if h is None else (h.module.name if h.module else '', h.name)          # (classes are made anew on every path)
            out = h if out == 'none yet' else out if out == h else None
        return out

    def class_named(self, q):
        found = [c for c in self.loader.classes if ((c.module.name if c.module else ''), c.name) == q]
        if not found and q[1] in self.B and self.B[q[1]].name == q[1] and self.B[q[1]].module is None:
            return self.B[q[1]]
        return found[0] if len(found) == 1 else None

    def list_kind(self, site, name, d, t):
        """The class of the elements of a list the loop changes (joined over entry and back edges, until stable)."""
        key = ('kind', name)
        old, new = site.shapes.get(key, 'none yet'), self.kind_of(d)
        site.shapes[key] = new if old == 'none yet' else old if new == 'none yet' or new == old else None
        site.shapes[('havoc', name)] = t
        return None if site.shapes[key] in ('none yet', None) else self.class_named(site.shapes[key])

    def kind_check(self, site, name, d):
        key = ('kind', name)
        if key not in site.shapes:
            return
        old = site.shapes[key]
        new = self.kind_of(d, site.shapes[('havoc', name)] if old == 'none yet' else None)
        if old is not None and new != 'none yet' and new != old:
            site.shapes[key] = new if old == 'none yet' else None
            site.changed = True
            if old == 'none yet' and new is not None:
                for x in self.sites.values():          # more is known from now on: what failed before is tried again
                    x.dead.clear()

    def strs_hint(self, site, name, d):
        """str while every element put there so far is a text (checked again at the back edge)."""
        key = ('strs', name)
        site.shapes[key] = site.shapes.get(key, True) and self.all_strs(d)
        return self.B['str'] if site.shapes[key] else None

    def strs_check(self, site, name, d):
        key = ('strs', name)
        if site.shapes.get(key) and isinstance(d, (ListData, SetData)) and not self.all_strs(d):
            site.shapes[key] = False
            site.changed = True

    def require_unique(self, obj, name, sc):
        """obj must be referenced only by this local (so that havocking the local is enough)."""
        for o in self.by_id.values():
            if isinstance(o, Obj) and o is not obj:
                if any(v is obj for v in o.attrs.values()):
                    raise Unsupported('loop-carried list %s is shared' % name)
                if isinstance(o.data, ListData) and any(c[0] == 'e' and c[1] is obj for c in o.data.chunks):
                    raise Unsupported('loop-carried list %s is shared' % name)
                if isinstance(o.data, DictData) and o.data.items is not None and \
                        any(v is obj for v in o.data.items.values()):
                    raise Unsupported('loop-carried list %s is shared' % name)
        s = sc
        while s is not None:
            for k, v in s.vars.items():
                if v is obj and k != name:
                    raise Unsupported('loop-carried list %s is aliased by %s' % (name, k))
            s = s.parent

    def shape_of(self, x):
        if isinstance(x, bool):
            return 'Bool'
        if isinstance(x, int):
            return 'Int'
        if isinstance(x, str):
            return 'Str'
        if isinstance(x, Sym):
            return x.kind if x.kind in ('Int', 'Bool', 'Str', 'V') else 'V'
        if x is MISSING or x is POISON:
            return 'poison'
        if isinstance(x, Obj) and isinstance(x.data, ListData) and x.cls is self.B['list']:
            return 'list'
        return 'V'

    def fits(self, sh, x):
        if sh == 'poison' or sh == 'V':
            return True
        return self.shape_of(x) == sh

    def local_term(self, x):
        """A z3 term for comparing local values (None when there is none)."""
        if isinstance(x, Obj) and isinstance(x.data, ListData):
            try:
                return self.list_term(x)
            except Unsupported:
                return None
        if x is POISON or x is MISSING:
            return None
        if isinstance(x, bool):
            return z3.BoolVal(x)
        if isinstance(x, int):
            return z3.IntVal(x)
        if isinstance(x, str):
            return z3.StringVal(x)
        if isinstance(x, Sym):
            return x.t
        try:
            return self.to_V(x)
        except Unsupported:
            return None

    def cell_terms(self, cell):
        """name -> z3 term describing a heap cell's content."""
        if cell[0] == 'fld':
            a = self.fields.get(cell[1])
            return {} if a is None else {'': a}
        o = self.by_label.get(cell[1])
        if o is None:
            return {}
        if cell[0] == 'data':
            d = o.data
            if isinstance(d, ListData):
                try:
                    return {'': self.list_term(o)}
                except Unsupported:
                    return {}
            if isinstance(d, DictData):
                dom, val = self.dict_arrays(o)
                return {'.dom': dom, '.val': val}
            if isinstance(d, SetData):
                return {'': self.set_term(o)}
            return {}
        x = o.attrs.get(cell[2], MISSING)
        t = self.local_term(x)
        return {} if t is None else {'': t}

    def havoc_cell(self, site, cell):
        if cell[0] == 'fld':
            a = self.fields.get(cell[1])
            if a is not None:
                self.wrote(cell)
                self.fields[cell[1]] = self.fresh('fld_' + cell[1], a.sort())
            return
        o = self.by_label.get(cell[1])
        if o is None:
            return
        if cell[0] == 'data':
            self.write_data(o)
            d = o.data
            if isinstance(d, ListData):
                t = self.fresh('lst', SEQ)
                d.chunks = [('s', t, self.list_kind(site, cell, d, t))]
            elif isinstance(d, DictData):
                vcls = d.vcls
                o.data = DictData(dom=self.fresh('dom', SETS), val=self.fresh('val', MAPS), vcls=vcls)
            elif isinstance(d, SetData):
                o.data = SetData(dom=self.fresh('set', SETS), strs=self.strs_hint(site, cell, d) is not None)
            else:
                raise Unsupported('loop modifies %r' % (o,))
        else:
            x = o.attrs.get(cell[2], MISSING)
            v = self.havoc_value(site, cell, x, Scope(None))
            if v is POISON:
                raise Unsupported('loop creates attribute %s' % (cell[2],))
            self.set_attr_raw(o, cell[2], v)

    def candidates(self, site, entry, k, it, sc, names):
        """Candidate invariants at iteration k, as name -> formula."""
        out = {}
        offs = [('', k)]
        if it is not None:
            offs.append(('+off', k if it.off is None else it.off + k))
            n = it.n if not isinstance(it.n, int) else z3.IntVal(it.n)
            out['k<n'] = z3.Or(n == 0, k < n)        # the loop is always left early
        cur = {}
        for nm in names:
            t = self.local_term(sc.vars.get(nm, MISSING))
            if t is not None:
                cur['L:' + nm] = t
        for cell in site.cells:
            for sub, t in self.cell_terms(cell).items():
                if 'C:%s%s' % (cell, sub) in entry:          # (a cell found in this very round is cut from the next one on)
                    cur['C:%s%s' % (cell, sub)] = t
        copied = self.iterated(it)
        for nm, t in cur.items():
            e = entry.get(nm)
            if e is not None and e.sort() == t.sort():
                out[nm + '==entry'] = t == e
            if e is not None and site.values.get(nm):
                vs = sorted(site.values[nm], key=repr)
                tv = self.to_V(self.lift(t))
                out['%s in entry,%r' % (nm, vs)] = z3.Or([tv == self.to_V(self.lift(e))] + [tv == self.to_V(v) for v in vs])
            if t.sort() == INT:
                if e is not None and e.sort() == INT:
                    out[nm + '==entry+k'] = t == e + k
                    out[nm + '==entry-k'] = t == e - k
                    out[nm + '>=entry'] = t >= e
                for bn, bt in self.ghost.get('bounds', {}).items():
                    out['%s<=%s' % (nm, bn)] = t <= bt
            if t.sort() == SEQ:
                for bn, bt in self.ghost.get('seqs', {}).items():
                    out['%s==%s' % (nm, bn)] = t == bt
                if copied is not None and e is not None and e.sort() == SEQ:
                    out[nm + '==entry++iterated'] = t == z3.Concat(e, z3.SubSeq(copied, 0, k))
            if t.sort() == SETS:
                out['nonempty %s==any' % nm] = self.set_nonempty_term(t) == (k > 0)
                if e is not None:
                    out['nonempty %s==entry or any' % nm] = self.set_nonempty_term(t) == z3.Or(self.set_nonempty_term(e), k > 0)
        for p in self.prefix_fns:
            for on, kk in offs:
                fk = p.f(kk)
                tag = p.name + on
                if p.sort == BOOL:
                    out['pf:%s' % tag] = fk
                    out['pf:not %s' % tag] = z3.Not(fk)
                for nm, t in cur.items():
                    e = entry.get(nm)
                    if t.sort() == p.sort:
                        out['%s==%s' % (nm, tag)] = t == fk
                        if p.sort == BOOL:
                            out['%s==not %s' % (nm, tag)] = t == z3.Not(fk)
                        if p.sort == SEQ and e is not None and e.sort() == SEQ:
                            out['%s==entry++%s' % (nm, tag)] = t == z3.Concat(e, fk)
                        if p.sort == INT and e is not None and e.sort() == INT:
                            out['%s==entry+%s' % (nm, tag)] = t == e + fk
                            out['%s==entry-%s' % (nm, tag)] = t == e - fk
                    if p.sort == BOOL and t.sort() == SEQ:
                        out['nonempty %s==%s' % (nm, tag)] = (z3.Length(t) > 0) == fk
                    if p.sort == BOOL and t.sort() == SETS:
                        out['nonempty %s==%s' % (nm, tag)] = self.set_nonempty_term(t) == fk
        if it is None and getattr(site, 'test', None) is not None:
            for nm, f in self.test_bounds(site.test, sc):
                out['T:' + nm] = f
        if self.extra_cands is not None:
            loop = {'k': k, 'entry': entry, 'cur': cur, 'it': it, 'sc': sc, 'site': site}
            for nm, f in self.extra_cands(self, loop).items():
                out['X:' + nm] = f
        return out

    def test_bounds(self, test, sc):
        """What a while loop's test bounds, as candidates that hold at its end too."""
        for c in test.values if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) else [test]:
            if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.Lt, ast.Gt, ast.NotEq)):
                a, b = self.plain_int(c.left, sc), self.plain_int(c.comparators[0], sc)
                if a is not None and b is not None:
                    if not isinstance(c.ops[0], ast.Gt):
                        yield '%s<=' % ast.unparse(c), a <= b
                    if not isinstance(c.ops[0], ast.Lt):
                        yield '%s>=' % ast.unparse(c), a >= b

    def plain_int(self, e, sc):
        """The integer term of a name, a constant or the length of a plainly reached list; None for anything else."""
        if isinstance(e, ast.Constant) and type(e.value) is int:
            return z3.IntVal(e.value)
        if isinstance(e, ast.Name):
            t = self.local_term(sc.vars.get(e.id, MISSING))
            return t if t is not None and t.sort() == INT else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1 and not e.keywords:
            o = self.plain_value(e.args[0], sc)
            if isinstance(o, Obj) and isinstance(o.data, ListData):
                n = self.list_len(o)
                return n.t if isinstance(n, Sym) else z3.IntVal(n) if isinstance(n, int) else n
        return None

    def plain_value(self, e, sc):
        if isinstance(e, ast.Name):
            return sc.vars.get(e.id, MISSING)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1 and not e.keywords:
            o = self.plain_value(e.args[0], sc)
            return o.cls if isinstance(o, Obj) else MISSING
        if isinstance(e, ast.Attribute):
            o = self.plain_value(e.value, sc)
            if isinstance(o, Obj) and e.attr in o.attrs:
                return o.attrs[e.attr]
            if isinstance(o, (Obj, ClassVal)):
                x = (o.cls if isinstance(o, Obj) else o).lookup(e.attr)
                return x if isinstance(x, Obj) and isinstance(x.data, ListData) else MISSING
        return MISSING

    def iterated(self, it):
        """The sequence of unknown length a loop runs through, if it is one."""
        q = it and (it.seq or it.under)
        return q[0][1] if q and len(q) == 1 and q[0][0] == 's' else None

    def prefix_facts(self, k, it):
        ks = [k]
        s = self.iterated(it)
        if s is not None:          # (a fact of sequences)
            self.assume(z3.Implies(z3.And(k >= 0, k < z3.Length(s)), z3.SubSeq(s, 0, k + 1) == z3.Concat(z3.SubSeq(s, 0, k), z3.Unit(s[k]))))
        if it is not None and it.off is not None:
            ks.append(it.off + k)
        for p in self.prefix_fns:
            for kk in ks:
                for f in p.facts(kk):
                    self.assume(f)

    def entry_terms(self, site, sc, names):
        entry = {}
        for nm in names:
            t = self.local_term(sc.vars.get(nm, MISSING))
            if t is not None:
                entry['L:' + nm] = t
        for cell in site.cells:
            for sub, t in self.cell_terms(cell).items():
                entry['C:%s%s' % (cell, sub)] = t
        return entry

    def check_cands(self, site, cands, what):
        """Prove each live candidate; kill those that are not provable. One query for all first."""
        live = [(n, f) for n, f in sorted(cands.items(), key=lambda x: str(x[0])) if n not in site.dead]
        if not live:
            return
        key = self.prefix_key()
        if key in self.memo:
            return
        self.memo[key] = True
        todo = live
        while todo:
            conj = z3.And([f for _, f in todo]) if len(todo) > 1 else todo[0][1]
            t = time_ = None
            self.solver.push()
            self.solver.add(z3.Not(conj))
            self.solver.set('timeout', min(2000, self.timeout))
            r = self._check()
            m = self.solver.model() if r == z3.sat else None
            self.solver.set('timeout', self.timeout)
            self.solver.pop()
            if r == z3.unsat or r == z3.unknown and self.decide(conj, timeout=3000)[0] == 'proved':
                return
            killed = set()
            if m is not None:
                for n, f in todo:
                    try:
                        if z3.is_false(m.eval(f, model_completion=True)):
                            killed.add(n)
                    except z3.Z3Exception:
                        pass
            if not killed:
                for n, f in todo:
                    st, _, _ = self.decide(f, timeout=3000)
                    if st != 'proved':
                        killed.add(n)
                if not killed:
                    return
            site.dead |= killed
            site.changed = True
            todo = [(n, f) for n, f in todo if n not in killed]

    def loop_head(self, site, it, sc, names, k):
        """Havoc and assume the live invariants for iteration k. Returns the entry terms."""
        entry = self.entry_terms(site, sc, names)
        self.prefix_facts(z3.IntVal(0), it)
        at_entry = self.candidates(site, entry, z3.IntVal(0), it, sc, names)
        self.check_cands(site, at_entry, 'entry')
        newlocals = {}
        for nm in sorted(names):
            if nm in sc.globals_ or nm in sc.nonlocals:
                raise Unsupported('loop assigns non-local %s' % nm)
            newlocals[nm] = self.havoc_value(site, nm, sc.vars.get(nm, MISSING), sc)
        for cell in sorted(site.cells, key=str):
            self.havoc_cell(site, cell)
        for nm, v in newlocals.items():
            sc.vars[nm] = v
        self.assume(k >= 0)
        self.prefix_facts(k, it)
        site.assumed = set()
        for nm, f in sorted(self.candidates(site, entry, k, it, sc, names).items(), key=lambda x: str(x[0])):
            if nm not in site.dead and nm in at_entry:
                self.assume(f)
                site.assumed.add(nm)
        return entry

    def back_edge(self, site, lf, it, sc, names, entry, k):
        for nm in sorted(names):
            v = sc.vars.get(nm, MISSING)
            sh = site.shapes.get(nm)
            if not self.fits(sh, v):
                site.shapes[nm] = 'V' if not isinstance(v, Obj) or sh != 'list' else sh
                site.changed = True
            if isinstance(v, Obj) and sh == 'list':
                self.kind_check(site, nm, v.data)
        for cell, old in lf.touched.items():
            if cell in site.cells:
                continue
            now = self.cell_content(cell)
            if not self.same_content(old, now):
                site.cells.add(cell)
                site.changed = True
        for cell in site.cells:
            if cell[0] == 'data':
                o = self.by_label.get(cell[1])
                if o is not None and isinstance(o.data, ListData):
                    self.kind_check(site, cell, o.data)
                elif o is not None:
                    self.strs_check(site, cell, o.data)
            if cell[0] == 'attr':
                o = self.by_label.get(cell[1])
                if o is not None and not self.fits(site.shapes.get(cell), o.attrs.get(cell[2], MISSING)):
                    site.shapes[cell] = 'V'
                    site.changed = True
        self.prefix_facts(k, it)
        for nm in names:
            # constants a local gets in the loop
            v = sc.vars.get(nm, MISSING)
            if (v is None or isinstance(v, (str, bool))) and len(site.values.setdefault('L:' + nm, set())) < 4 and v not in site.values['L:' + nm]:
                site.values['L:' + nm].add(v)
                site.changed = True
        cands = self.candidates(site, entry, k + 1, it, sc, names)
        lost = site.assumed - set(cands) - site.dead
        if lost:          # (what cannot even be stated at the end of an iteration was not to be assumed)
            site.dead |= lost
            site.changed = True
        self.check_cands(site, cands, 'step')

    def cut_loop(self, node, it, n, body, sc, names):
        site = self.loop_site(node)
        self.assume(n >= 0)
        birth = self.alloc
        k = self.fresh('k', INT)
        # the body's frame is recorded on outer loops as well
        entry = self.loop_head(site, it, sc, names, k)
        if it.src is not None and isinstance(it.src.data, ListData) and ('data', it.src.label) in site.cells:
            self.assume(self.int_term(self.list_len(it.src)) == self.int_term(it.src_len))          # (checked at the back edge)
        if self.choose(2) == 0:
            self.assume(k < n)
            if self._check() == z3.unsat:
                raise PathEnd()
            lf = LoopFrame(site, birth)
            self.loops.append(lf)
            try:
                src0 = it.src.data if it.src is not None else None
                snap = src0.copy() if src0 is not None else None
                try:
                    body(it.get(k))
                except Continue:
                    pass
                if it.src is not None and not self.same_content(snap, it.src.data) and not self.same_keys(snap, it.src.data) \
                        and not self.same_length(it, it.src.data):
                    raise Unsupported('container mutated while iterated')
                self.back_edge(site, lf, it, sc, names, entry, k)
            finally:
                self.loops.pop()
            raise PathEnd()
        self.assume(k == n)
        if self._check() == z3.unsat:
            raise PathEnd()

    def same_length(self, it, d):
        """A list may get other elements while it is enumerated."""
        n = getattr(it, 'src_len', None)
        return n is not None and isinstance(d, ListData) and self.decide(self.int_term(self.list_len(it.src)) == self.int_term(n))[0] == 'proved'

    def same_keys(self, a, b):
        """A dict may get other values for its keys while it is enumerated."""
        if not (isinstance(a, DictData) and isinstance(b, DictData)) or a.concrete or b.concrete:
            return False
        return self.decide(a.dom == b.dom)[0] == 'proved'

    def cut_while(self, node, cond, body, sc, names):
        # unroll while the condition is decided without forking
        for c in range(400):
            ok, val = self.try_nofork(cond)
            if not ok:
                break
            if not val:
                return
            try:
                body()
            except Continue:
                pass
        else:
            raise Unsupported('loop unrolled too often')
        if self.bound is not None:
            c = 0
            while cond():
                if c > self.bound + 2:
                    self.res.truncated = True
                    raise PathEnd()
                c += 1
                try:
                    body()
                except Continue:
                    pass
            return
        site = self.loop_site(node)
        site.test = node.test
        birth = self.alloc
        k = self.fresh('k', INT)
        entry = self.loop_head(site, None, sc, names, k)
        lf = LoopFrame(site, birth)
        self.loops.append(lf)
        popped = False
        try:
            if not cond():
                self.loops.pop()
                popped = True
                # writes of the condition itself are real from here on
                return
            try:
                body()
            except Continue:
                pass
            self.back_edge(site, lf, None, sc, names, entry, k)
            raise PathEnd()
        finally:
            if not popped:
                self.loops.pop()
