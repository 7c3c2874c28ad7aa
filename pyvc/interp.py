"""Symbolic executor / VC generator for the Python of /repo (see DESIGN.md, "The verifier").

One harness = one contract.  A path is executed directly; every branch on a symbolic condition
consults a decision trail, and the driver re-executes the harness until every feasible trail has been
taken.  Loops over unknown-length sequences are cut at an invariant (Houdini over candidate
invariants), so a finished exploration covers all inputs and all iterations.
"""
import ast
import os
import time
import z3
from .values import *          # noqa: F401,F403
from .values import c3, fn     # noqa: F401

INLINE_DEPTH = 60


class Scope(object):
    __slots__ = ('vars', 'parent', 'locals', 'module', 'globals_', 'nonlocals', 'func', 'klass', 'yields')

    def __init__(self, module, parent=None, locals_=None, func=None):
        self.vars = {}
        self.parent = parent
        self.locals = locals_
        self.module = module
        self.globals_ = set()
        self.nonlocals = set()
        self.func = func
        self.klass = None
        self.yields = None


class LoopSite(object):
    """What is known about one loop (AST node + call stack) across re-executions."""

    def __init__(self, key):
        self.key = key
        self.cells = set()       # havocked heap cells
        self.dead = set()        # refuted candidate invariants
        self.shapes = {}         # local -> shape
        self.changed = False
        self.seen = set()
        self.values = {}        # local -> constants it was seen to get
        self.assumed = set()


class LoopFrame(object):
    def __init__(self, site, birth):
        self.site = site
        self.birth = birth
        self.touched = {}        # cell -> content before the first write of this iteration


class PrefixFn(object):
    """f(0) = init, f(k+1) = step(k): the specification of what a loop has done after k iterations."""

    def __init__(self, name, sort, init, step, extra=None):
        self.name, self.sort = name, sort
        self.f = z3.Function(name, INT, sort)
        self.init, self.step, self.extra = init, step, extra

    def facts(self, k):
        out = [self.f(z3.IntVal(0)) == self.init,
               z3.Implies(k >= 0, self.f(k + 1) == self.step(k))]
        if self.extra is not None:
            out.extend(self.extra(k))
        return out


class Result(object):
    def __init__(self):
        self.obligations = []      # (name, status, detail)
        self.paths = 0
        self.cut = 0
        self.unsupported = []
        self.solver_s = 0.0
        self.queries = 0
        self.covers = {}
        self.rounds = 0
        self.sites = 0
        self.backends = {}
        self.truncated = False
        self.inlined = set()
        self.contracts_used = set()


class Interp(object):
    def __init__(self, loader, timeout_ms=8000):
        self.loader = loader
        self.timeout = timeout_ms
        self.bound = None
        self.max_paths = 6000
        self.deadline = None
        loader.install(self)

    # ------------------------------------------------------------ exploration
    def explore(self, harness, bound=None, deadline_s=600):
        self.bound = bound
        self.harness = harness
        self.sites = {}
        self.deadline = time.time() + deadline_s
        res = None
        solver_s, queries = 0.0, 0
        rnd = 0
        while True:
            rnd += 1
            res = Result()
            self.res = res
            self.memo = {}
            for s in self.sites.values():
                s.changed = False
            self.explore_round(harness)
            solver_s += res.solver_s
            queries += res.queries
            if not any(s.changed for s in self.sites.values()):
                break
            if res.unsupported and (rnd > 8 or time.time() > self.deadline):
                break
            if rnd > 60:
                res.unsupported.append('invariant inference did not converge')
                break
        res.solver_s, res.queries, res.rounds = solver_s, queries, rnd
        res.sites = len(self.sites)
        return res

    def explore_round(self, harness):
        self.trail = []
        self.round_start = time.time()
        while True:
            self.start_path()
            try:
                harness.run(self)
                self.res.paths += 1
                for c in self.path_covers:
                    self.res.covers[c] = self.res.covers.get(c, 0) + 1
            except PathEnd:
                self.res.cut += 1
            except PyRaise as e:
                self.res.unsupported.append('uncaught exception in harness: %s' % self.exc_text(e.exc))
            except Unsupported as e:
                self.res.unsupported.append('%s at %s' % (e, self.where()))
            except (Return, Break, Continue) as e:
                self.res.unsupported.append('control flow escaped: %r' % e)
            except RecursionError:
                self.res.unsupported.append('recursion too deep')
            except z3.Z3Exception as e:
                self.res.unsupported.append('term error %s at %s' % (str(e)[:120], self.where()))
            except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError) as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                self.res.unsupported.append('engine: %s: %s (%s:%s) at %s' % (
                    type(e).__name__, str(e)[:100], os.path.basename(tb.filename), tb.lineno, self.where()))
            if self.res.unsupported:
                return
            if self.res.paths + self.res.cut > self.max_paths:
                self.res.unsupported.append('too many paths')
                return
            if time.time() > self.deadline:
                self.res.unsupported.append('time limit')
                return
            # next trail
            while self.trail and not self.trail[-1][1]:
                self.trail.pop()
            if not self.trail:
                return
            taken, alts = self.trail[-1]
            self.trail[-1] = (alts[0], alts[1:])

    def start_path(self):
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout)
        self.pc = []
        self.fields = {}
        self.loops = []
        self.callstack = []
        self.active = []
        self.labels = {}
        self.by_label = {}
        self.fresh_n = {}
        self.check_n = 0
        self.path_covers = []
        self.prefix_fns = []
        self.extra_cands = None
        self.contracts = {}
        self.cur = None
        self.ghost = {}
        self.notes = []
        self.eq_refs = set()
        self.nofork = False
        self.loader.restore(self)

    # ------------------------------------------------------------ logic
    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        c = z3.simplify(c) if z3.is_bool(c) and not z3.is_quantifier(c) else c
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        self.pc.append(c)
        self.solver.add(c)

    def _check(self, *conds):
        t = time.time()
        r = self.solver.check(*conds)
        self.res.solver_s += time.time() - t
        self.res.queries += 1
        return r

    def branch(self, cond):
        """Decide a condition, forking when both outcomes are feasible."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trail):
            take = self.trail[self.pos][0]
            self.pos += 1
        else:
            if time.time() > self.deadline:
                raise Unsupported('time limit')
            neg = z3.Not(cond)
            can_t = self._check(cond) != z3.unsat
            can_f = True if not can_t else self._check(neg) != z3.unsat
            if not can_t and not can_f:
                raise PathEnd()
            if self.nofork and can_t and can_f:
                raise NeedFork()
            take = can_t
            self.trail.append((take, [False] if (can_t and can_f) else []))
            self.pos += 1
        self.pc.append(cond if take else z3.Not(cond))
        self.solver.add(self.pc[-1])
        return take

    def try_nofork(self, f):
        """Run f() if it needs no fork: (True, result); otherwise (False, None), leaving the trail as it was."""
        at = self.pos
        if at < len(self.trail):
            ok = self.trail[at][0]
            self.pos += 1
            return (True, f()) if ok else (False, None)
        self.trail.append((True, []))
        self.pos += 1
        prev, self.nofork = self.nofork, True
        npc = len(self.pc)
        nck = self.check_n
        try:
            r = f()
        except NeedFork:
            del self.trail[at:]
            self.trail.append((False, []))
            self.pos = at + 1
            if len(self.pc) != npc:
                self.solver.reset()
                del self.pc[npc:]
                self.solver.add(*self.pc)
            self.check_n = nck
            return False, None
        finally:
            self.nofork = prev
        return True, r

    def choose(self, n):
        """Nondeterministic choice 0..n-1 (all alternatives are explored)."""
        if n == 1:
            return 0
        if self.nofork:
            raise NeedFork()
        if self.pos < len(self.trail):
            take = self.trail[self.pos][0]
        else:
            take = 0
            self.trail.append((0, list(range(1, n))))
        self.pos += 1
        return take

    def prefix_key(self):
        self.check_n += 1
        return (tuple(t[0] for t in self.trail[:self.pos]), self.check_n)

    def entails(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = self.prefix_key()
        if key in self.memo:
            return self.memo[key]
        r = self._check(z3.Not(cond)) == z3.unsat
        self.memo[key] = r
        return r

    def decide(self, cond, timeout=None):
        """(status, model, backend) of pc => cond."""
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        t = time.time()
        timeout = timeout or self.timeout
        s = z3.Solver()
        s.set('timeout', min(timeout, 1500))
        s.add(*self.pc)
        s.add(z3.Not(cond))
        r = s.check()
        self.res.queries += 1
        if r == z3.unknown:
            if self.cvc5(s, timeout):
                self.res.solver_s += time.time() - t
                return 'proved', None, 'cvc5'
            if timeout > 1500:
                s = z3.Solver()
                s.set('timeout', timeout)
                s.add(*self.pc)
                s.add(z3.Not(cond))
                r = s.check()
        out, model, be = None, None, 'z3'
        if r == z3.unsat:
            out = 'proved'
        elif r == z3.sat:
            out, model = 'refuted', s.model()
        else:
            out, be = 'unknown', 'none'
        self.res.solver_s += time.time() - t
        return out, model, be

    def cvc5(self, s, timeout):
        """Whether cvc5 proves the query (z3's two names for the element of a sequence are the standard one)."""
        import subprocess
        import tempfile
        try:
            txt = '(set-logic ALL)\n' + s.to_smt2().replace('seq.nth_i', 'seq.nth').replace('seq.nth_u', 'seq.nth')
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(txt)
            try:
                r = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % timeout, f.name],
                                   capture_output=True, text=True, timeout=timeout / 1000.0 + 5)
            finally:
                os.unlink(f.name)
            return r.stdout.strip() == 'unsat'
        except Exception:
            return False

    def prove(self, name, cond, info=None):
        """An obligation: pc => cond must be valid."""
        if isinstance(cond, Sym):
            cond = cond.t
        key = self.prefix_key()
        if key in self.memo:
            st = self.memo[key]
            if st == 'proved':
                self.assume(cond)
            return st
        st, model, be = self.decide(cond)
        if st == 'refuted' and self.prefix_fns:
            # the definitions of the prefix functions at the first few indices (loops assume them where they need them)
            for x in range(2 * (self.bound or 2) + 2):
                self.prefix_facts(z3.IntVal(x), None)
            st, model, be = self.decide(cond)
        detail = None
        if st != 'proved':
            detail = {'where': self.where(), 'pc': [str(c)[:400] for c in self.pc[-25:]],
                      'goal': str(cond)[:800]}
            if model is not None:
                detail['model'] = str(model)[:3000]
                try:
                    detail['case'] = self.harness.concretize(self, model)
                except Exception as e:      # concretization is best effort
                    detail['concretize_error'] = '%s: %s' % (type(e).__name__, e)
            if info is not None:
                detail['info'] = str(info)
        else:
            self.res.backends[be] = self.res.backends.get(be, 0) + 1
        self.res.obligations.append((name, st, detail))
        self.memo[key] = st
        if st == 'proved':
            self.assume(cond)
        return st

    def cover(self, name):
        self.path_covers.append(name)

    def fresh(self, base, sort):
        i = self.fresh_n.get(base, 0)
        self.fresh_n[base] = i + 1
        return z3.Const('%s!%d' % (base, i), sort)

    # ------------------------------------------------------------ heap
    def label(self, what):
        base = '%s@%s' % (what, self.loc_key())
        i = self.labels.get(base, 0)
        self.labels[base] = i + 1
        return '%s#%d' % (base, i)

    def loc_key(self):
        cs = ','.join(str(c) for c in self.callstack[-6:])
        n = self.cur
        return '%s|%s' % (cs, (getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0)) if n is not None else '-')

    def new(self, cls, label=None):
        self.alloc += 1
        o = Obj(self.alloc, cls, label or self.label(cls.name), self.alloc)
        self.by_label[o.label] = o
        self.by_id[o.oid] = o
        return o

    def new_list(self, chunks=(), label=None):
        o = self.new(self.B['list'], label)
        o.data = ListData(chunks)
        return o

    def list_of(self, values, label=None):
        return self.new_list([('e', v) for v in values], label)

    def seq_list(self, term, elemcls=None, label=None):
        return self.new_list([('s', term, elemcls)], label)

    def new_dict(self, items=None, label=None):
        o = self.new(self.B['dict'], label)
        o.data = DictData(items if items is not None else {})
        return o

    def new_set(self, items=(), label=None):
        o = self.new(self.B['set'], label)
        o.data = SetData()
        for i in items:
            self.set_add(o, i)
        return o

    def wrote(self, cell, obj=None):
        if not self.loops:
            return
        for lf in self.loops:
            if cell[0] == 'fld' or (obj is not None and obj.birth <= lf.birth):
                if cell not in lf.touched:
                    lf.touched[cell] = self.cell_content(cell, obj)

    def cell_content(self, cell, obj=None):
        if cell[0] == 'fld':
            return self.fields.get(cell[1])
        o = obj or self.by_label.get(cell[1])
        if cell[0] == 'data':
            return o.data.copy() if o.data is not None and hasattr(o.data, 'copy') else o.data
        return o.attrs.get(cell[2], MISSING)

    def same_content(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, ListData):
            ca, cb = [c for c in a.chunks], [c for c in b.chunks]
            if len(ca) != len(cb):
                return False
            for x, y in zip(ca, cb):
                if x[0] != y[0]:
                    return False
                if x[0] == 'e':
                    if not self.same_content(x[1], y[1]):
                        return False
                elif not x[1].eq(y[1]):
                    return False
            return True
        if isinstance(a, DictData):
            if a.concrete != b.concrete:
                return False
            if a.concrete:
                return (list(a.items) == list(b.items) and
                        all(self.same_content(a.items[k], b.items[k]) for k in a.items))
            return a.dom.eq(b.dom) and a.val.eq(b.val)
        if isinstance(a, SetData):
            if a.dom is not None or b.dom is not None:
                return a.dom is not None and b.dom is not None and a.dom.eq(b.dom)
            return len(a.items) == len(b.items) and all(self.same_content(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Sym):
            return a.t.eq(b.t)
        if isinstance(a, z3.ExprRef):
            return a.eq(b)
        if isinstance(a, tuple):
            return len(a) == len(b) and all(self.same_content(x, y) for x, y in zip(a, b))
        if is_prim(a):
            return a == b
        return False

    def set_attr_raw(self, obj, name, value):
        self.wrote(('attr', obj.label, name), obj)
        obj.attrs[name] = value

    def write_data(self, obj):
        """Call before mutating obj.data in place."""
        if obj.frozen:
            raise Unsupported('a list is changed after it was stored by value')
        self.wrote(('data', obj.label), obj)

    # ------------------------------------------------------------ V encoding
    def to_V(self, x):
        if x is None:
            return V.none
        if isinstance(x, bool):
            return V.bool(z3.BoolVal(x))
        if isinstance(x, int):
            return V.int(z3.IntVal(x))
        if isinstance(x, float):
            return V.flt(z3.FPVal(x, FLT))
        if isinstance(x, str):
            return V.str(z3.StringVal(x))
        if isinstance(x, Sym):
            k = x.kind
            if k == 'V':
                return x.t
            return {'Int': V.int, 'Bool': V.bool, 'Str': V.str, 'Flt': V.flt}[k](x.t)
        if isinstance(x, tuple):
            if len(x) == 0:
                return V.tup0
            if len(x) == 2:
                return V.pair(self.to_V(x[0]), self.to_V(x[1]))
            if len(x) == 3:
                return V.trip(*[self.to_V(y) for y in x])
            raise Unsupported('tuple of length %d as a term' % len(x))
        if isinstance(x, Obj):
            if isinstance(x.data, ListData) and self.ghost.get('value_lists') and x.cls is self.B['list']:
                # a list that is never written again and of which only the items matter
                x.frozen = True
                s = self.list_term(x)
                r = LISTREF(s)
                self.assume(z3.And(UNLIST(r) == s, r > 2 * OPAQUE_BASE))
                return V.ref(r)
            return V.ref(z3.IntVal(x.oid))
        if x is POISON or x is MISSING:
            raise Unsupported('undefined value used')
        if isinstance(x, (ClassVal, FuncVal, BuiltinFn, ModuleVal, BoundMethod)):
            return V.ref(z3.IntVal(self.handle(x)))
        raise Unsupported('no term for %r' % (x,))

    def handle(self, x):
        for i, y in self.handles.items():
            if y is x or (isinstance(x, BoundMethod) and isinstance(y, BoundMethod)
                          and y.func is x.func and y.self_ is x.self_):
                return i
        self.alloc += 1
        self.handles[self.alloc] = x
        self.by_id[self.alloc] = x
        return self.alloc

    def lift(self, t, cls=None):
        """A z3 term as an engine value; literals become host values."""
        t = z3.simplify(t)
        s = t.sort()
        if s == INT:
            return t.as_long() if z3.is_int_value(t) else Sym(t)
        if s == BOOL:
            return True if z3.is_true(t) else False if z3.is_false(t) else Sym(t)
        if s == STR:
            return self.strval(t) if z3.is_string_value(t) else Sym(t)
        if s == FLT:
            return Sym(t)
        if s == V:
            d = t.decl()
            n = d.name()
            if n == 'none' and t.num_args() == 0:
                return None
            if n in ('bool', 'int', 'str', 'flt') and t.num_args() == 1 and d.eq(getattr(V, n)):
                return self.lift(t.arg(0))
            if n == 'tup0' and t.num_args() == 0:
                return ()
            if n == 'pair' and d.eq(V.pair):
                return (self.lift(t.arg(0)), self.lift(t.arg(1)))
            if n == 'trip' and d.eq(V.trip):
                return tuple(self.lift(t.arg(i)) for i in range(3))
            if n == 'ref' and d.eq(V.ref) and z3.is_int_value(t.arg(0)):
                i = t.arg(0).as_long()
                if i in self.by_id:
                    return self.by_id[i]
            return Sym(t, cls)
        raise Unsupported('lift of sort %s' % s)

    def strval(self, t):
        s = t.as_string()
        # z3 escapes non-printable characters as \u{..}
        import re
        return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)

    def narrow(self, x):
        """Replace a V-sorted symbolic value by a typed one when the path condition fixes its type."""
        if not isinstance(x, Sym) or x.kind != 'V' or x.cls is not None:
            return x
        t = x.t
        key = ('narrow', t.get_id(), len(self.pc))
        if key in self.ncache:
            f = self.ncache[key]
        else:
            f = None
            for test in ('str', 'int', 'none', 'bool', 'flt', 'pair', 'trip'):
                if self.entails(getattr(V, 'is_' + test)(t)):
                    f = test
                    break
            self.ncache[key] = f
        if f is None:
            return self.resolve_ref(x)
        if f == 'none':
            return None
        if f == 'pair':
            return (self.lift(V.fst(t)), self.lift(V.snd(t)))
        if f == 'trip':
            return (self.lift(V.t1(t)), self.lift(V.t2(t)), self.lift(V.t3(t)))
        return self.lift({'str': V.s, 'int': V.i, 'bool': V.b, 'flt': V.f}[f](t))

    def resolve_ref(self, x):
        """A symbolic value that is provably one of the known heap objects of the harness."""
        for o in self.ghost.get('known_refs', ()):
            if self.entails(x.t == self.to_V(o)):
                return o
        return x

    # ------------------------------------------------------------ diagnostics
    def where(self):
        n = self.cur
        return '%s:%s' % (self.callstack[-1] if self.callstack else '<harness>', getattr(n, 'lineno', '?'))

    def exc_text(self, exc):
        try:
            a = exc.data
            return '%s(%s)' % (exc.cls.name, ', '.join(str(x) for x in (a or ())))
        except Exception:
            return repr(exc)
