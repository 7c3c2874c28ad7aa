"""Object model: attributes, classes, containers, operators."""
import builtins
import collections
import datetime
import decimal
import functools
import re
import time
import uuid

import z3
from .values import *          # noqa: F401,F403
from .values import c3         # noqa: F401

#: what the classes modelled in builtins.py stand for, beside those of the same name in the module builtins
REAL = {'Pattern': re.Pattern, 'Match': re.Match, 'date': datetime.date, 'datetime': datetime.datetime, 'time': datetime.time,
        'timedelta': datetime.timedelta, 'struct_time': time.struct_time, 'Decimal': decimal.Decimal, 'UUID': uuid.UUID,
        'partial': functools.partial, 'defaultdict': collections.defaultdict, 'OrderedDict': collections.OrderedDict}


class ObjectMixin(object):

    # ------------------------------------------------------------ exceptions
    def raise_exc(self, name, *args):
        raise PyRaise(self.make_exc(self.B[name], *args))

    def make_exc(self, cls, *args):
        e = self.new(cls)
        e.data = tuple(args)
        return e

    # ------------------------------------------------------------ types
    def type_of(self, x):
        if x is None:
            return self.B['NoneType']
        for h, n in ((bool, 'bool'), (int, 'int'), (float, 'float'), (str, 'str'), (bytes, 'bytes'), (tuple, 'tuple')):
            if isinstance(x, h):
                return self.B[n]
        if isinstance(x, Obj):
            return x.cls
        if isinstance(x, Sym):
            if x.cls is not None:
                return x.cls
            y = self.narrow(x)
            if y is not x and not (isinstance(y, Sym) and y.kind == 'V'):
                return self.type_of(y)
            if x.kind != 'V':
                return self.B[{'Int': 'int', 'Bool': 'bool', 'Str': 'str', 'Flt': 'float'}[x.kind]]
            raise Unsupported('type() of an unknown value')
        if isinstance(x, ClassVal):
            return x.meta or self.B['type']
        if isinstance(x, (FuncVal, BuiltinFn)):
            return self.B['function']
        if isinstance(x, BoundMethod):
            return self.B['method']
        if isinstance(x, IterV):
            return self.B['generator']
        if isinstance(x, ModuleVal):
            return self.B['module']
        if isinstance(x, PropertyV):
            return self.B['property']
        if isinstance(x, StaticM):
            return self.B['staticmethod']
        if isinstance(x, ClassM):
            return self.B['classmethod']
        raise Unsupported('type of %r' % (x,))

    def isinstance_(self, x, t):
        """Host bool or Sym Bool."""
        t = self.narrow(t)
        if isinstance(t, tuple):
            terms = [self.isinstance_(x, y) for y in t]
            if any(b is True for b in terms):
                return True
            terms = [b.t for b in terms if isinstance(b, Sym)]
            return self.lift(z3.Or(terms)) if terms else False
        if not isinstance(t, ClassVal):
            raise Unsupported('isinstance(_, %r)' % (t,))
        if isinstance(x, Sym) and x.kind == 'V' and x.cls is None:
            return self.lift(self.isinst_term(x.t, t))
        if isinstance(x, Sym) and x.cls is not None:
            return self.issubclass_(x.cls, t)
        c = self.type_of(x)
        return self.issubclass_(c, t)

    def issubclass_(self, c, t):
        if t in c.mro:
            return True
        for v in self.abc_registry.get(t.name, ()):      # list/dict/str/tuple registered with the ABCs
            if any(m.name == v and m.host is not None for m in c.mro):
                return True
        return False

    @staticmethod
    def tag(c):
        """Unique name of a class in ISINST: user classes are module-qualified."""
        if c.host is not None or getattr(c, 'stdlib', False) or c.module is None:
            return c.name
        return '%s.%s' % (c.module.name, c.name)

    def isinst_term(self, t, c):
        n = self.tag(c)
        if True:
            if n == 'object':
                return z3.BoolVal(True)
            if n == 'str':
                return V.is_str(t)
            if n == 'int':
                return z3.Or(V.is_int(t), V.is_bool(t))
            if n == 'bool':
                return V.is_bool(t)
            if n == 'float':
                return V.is_flt(t)
            if n == 'NoneType':
                return V.is_none(t)
            if n == 'bytes':
                self.isinst_axioms(t, c)
                return z3.And(V.is_ref(t), ISINST(t, z3.StringVal('bytes')))
        tup = z3.Or(V.is_tup0(t), V.is_pair(t), V.is_trip(t))
        ref = z3.And(V.is_ref(t), ISINST(t, z3.StringVal(n)))
        self.isinst_axioms(t, c)
        if n == 'tuple':
            return z3.Or(tup, ref)
        if n == 'Sequence':
            return z3.Or(tup, V.is_str(t), ref)
        if n == 'Number':
            return z3.Or(V.is_int(t), V.is_bool(t), V.is_flt(t), ref)
        return ref

    #: class relations used for opaque values: sub -> supers
    RELATED = {'datetime': ['date'], 'struct_time': ['tuple'], 'dict': ['Mapping'], 'list': ['Sequence'],
               'tuple': ['Sequence'], 'Decimal': ['Number'], 'bytes': ['Sequence'], 'OrderedDict': ['dict', 'Mapping']}
    DISJOINT = [('dict', 'list'), ('dict', 'tuple'), ('list', 'tuple'), ('dict', 'date'), ('list', 'date'),
                ('Decimal', 'date'), ('dict', 'Decimal'), ('list', 'Decimal'), ('tuple', 'date'),
                ('UUID', 'date'), ('UUID', 'Decimal'), ('date', 'time')]

    def isinst_axioms(self, t, c):
        n = self.tag(c)
        key = ('isinst', t.get_id(), n)
        if key in self.axiom_done:
            return
        self.axiom_done[key] = t

        def p(m):
            return ISINST(t, z3.StringVal(m))
        for sup in self.RELATED.get(n, []):
            self.assume(z3.Implies(p(n), p(sup)))
        for sub, sups in self.RELATED.items():
            if n in sups:
                self.assume(z3.Implies(p(sub), p(n)))
        for a, b in self.DISJOINT:
            if n in (a, b):
                self.assume(z3.Not(z3.And(p(a), p(b))))
        if c.host is None:
            for m in c.mro[1:]:
                if m.name != 'object':
                    self.assume(z3.Implies(p(n), p(self.tag(m))))
        # engine-allocated objects have a known class
        for o in list(self.by_id.values()):
            if isinstance(o, Obj) and o.oid in self.embedded:
                self.assume(ISINST(V.ref(z3.IntVal(o.oid)), z3.StringVal(n)) == self.issubclass_(o.cls, c))

    # ------------------------------------------------------------ attributes
    def type_attr(self, x, name):
        """Attribute of type(x), unbound (for special methods)."""
        if isinstance(x, (Obj,)):
            return x.cls.lookup(name)
        if isinstance(x, Sym) and x.cls is not None:
            return x.cls.lookup(name)
        try:
            return self.type_of(x).lookup(name)
        except Unsupported:
            return MISSING

    def bind_descr(self, a, obj, cls):
        """Apply the descriptor protocol to class attribute `a`."""
        if isinstance(a, (FuncVal, BuiltinFn)):
            return BoundMethod(a, obj) if obj is not MISSING else a
        if isinstance(a, ClassM):
            return BoundMethod(a.f, cls)
        if isinstance(a, StaticM):
            return a.f
        if isinstance(a, PropertyV):
            if obj is MISSING:
                return a
            return self.call(a.fget, [obj])
        if isinstance(a, Obj):
            g = a.cls.lookup('__get__')
            if g is not MISSING:
                return self.call(g, [a, None if obj is MISSING else obj, cls])
        return a

    def is_data_descr(self, a):
        if isinstance(a, PropertyV):
            return True
        return isinstance(a, Obj) and a.cls.lookup('__set__') is not MISSING

    def getattr(self, o, name, default=MISSING):
        if default is not MISSING:
            try:
                return self.getattr(o, name)
            except PyRaise as e:
                if self.exc_matches(e.exc, self.B['AttributeError']):
                    return default
                raise
        if isinstance(o, Obj):
            return self.getattr_obj(o, name)
        if isinstance(o, ClassVal):
            return self.getattr_class(o, name)
        if isinstance(o, ModuleVal):
            return self.module_member(o, name)
        if isinstance(o, SuperV):
            return self.getattr_super(o, name)
        if isinstance(o, Sym):
            if o.cls is not None:
                return self.getattr_symobj(o, name)
            p = self.narrow(o)
            if p is not o:
                return self.getattr(p, name)
            if o.kind == 'V':
                h = self.ghost.get('getattr_opaque')
                if h is not None:
                    r = h(self, o, name)
                    if r is not MISSING:
                        return r
                raise Unsupported('attribute %s of an unknown value' % name)
        if isinstance(o, FuncVal):
            if name in ('__name__',):
                return o.name
            if name in o.attrs:
                return o.attrs[name]
        if isinstance(o, BuiltinFn) and name == '__name__':
            return o.name
        if isinstance(o, BoundMethod):
            if name == '__self__':
                return o.self_
            if name == '__func__':
                return o.func
            return self.getattr(o.func, name)
        if isinstance(o, PropertyV) and name in ('setter', 'deleter', 'getter'):
            def mk(it, a, k):
                f = a[0]
                return PropertyV(f if name == 'getter' else o.fget, f if name == 'setter' else o.fset,
                                 f if name == 'deleter' else o.fdel)
            return BuiltinFn('property.' + name, mk)
        if name == '__class__':
            return self.type_of(o)
        c = self.type_of(o)
        a = c.lookup(name)
        if a is MISSING:
            self.known_missing(c, name)
            self.raise_exc('AttributeError', '%s has no attribute %s' % (c.name, name))
        return self.bind_descr(a, o, c)

    def getattr_obj(self, o, name):
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            if '__dict__' in o.attrs:
                return o.attrs['__dict__']
            raise Unsupported('__dict__')
        a = o.cls.lookup(name)
        if a is not MISSING and self.is_data_descr(a):
            return self.bind_descr_fallback(a, o, name)
        if name in o.attrs:
            return o.attrs[name]
        if a is not MISSING:
            return self.bind_descr_fallback(a, o, name)
        if name == 'args' and isinstance(o.data, tuple):
            return o.data
        ga = o.cls.lookup('__getattr__')
        if ga is not MISSING:
            return self.call(ga, [o, name])
        self.known_missing(o.cls, name)
        self.raise_exc('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, name))

    def known_missing(self, cls, name):
        """An attribute the modelled builtin has and its model has not is unknown, not missing."""
        for c in cls.mro:
            if c.module is None and c.name != 'object' and isinstance(name, str):
                real = REAL.get(c.name) or getattr(builtins, c.name, None)
                if isinstance(real, type) and hasattr(real, name):
                    raise Unsupported('attribute %s of %s' % (name, c.name))

    def bind_descr_fallback(self, a, o, name):
        ga = o.cls.lookup('__getattr__')
        if ga is MISSING:
            return self.bind_descr(a, o, o.cls)
        try:
            return self.bind_descr(a, o, o.cls)
        except PyRaise as e:
            if self.exc_matches(e.exc, self.B['AttributeError']):
                return self.call(ga, [o, name])
            raise

    def getattr_symobj(self, o, name):
        if name == '__class__':
            return o.cls
        a = o.cls.lookup(name)
        if a is not MISSING and self.is_data_descr(a):
            return self.bind_descr(a, o, o.cls)
        decl = self.opaque_decl(o.cls, name)
        if decl is not None:
            return self.read_field(o, name, decl)
        if a is not MISSING:
            return self.bind_descr(a, o, o.cls)
        ga = o.cls.lookup('__getattr__')
        if ga is not MISSING:
            return self.call(ga, [o, name])
        raise Unsupported('attribute %s of opaque %s' % (name, o.cls.name))

    def opaque_decl(self, cls, name):
        for c in cls.mro:
            d = c.ns.get('__opaque_attrs__')
            if d is not None and name in d:
                return d[name]
        return None

    def field_array(self, name):
        if name not in self.fields:
            self.fields[name] = z3.Const('fld0_' + name, MAPS)
        return self.fields[name]

    def read_field(self, o, name, decl):
        t = z3.Select(self.field_array(name), o.t)
        hint, inv = decl if isinstance(decl, tuple) else (decl, None)
        if inv is not None:
            self.assume(inv(t))
        return self.lift(t, hint if isinstance(hint, ClassVal) else None)

    def getattr_class(self, c, name):
        if name == '__name__':
            return c.name
        if name == '__mro__':
            return tuple(c.mro)
        if name == '__bases__':
            return tuple(c.bases)
        if name == '__subclasses__':
            return BuiltinFn('__subclasses__', lambda it, a, k: it.list_of(list(c.subclasses)))
        if name == '__module__' and '__module__' not in c.ns:
            return c.module.name if c.module else 'builtins'
        if c.meta is not None:
            ma = c.meta.lookup(name)
            if ma is not MISSING and self.is_data_descr(ma):
                return self.bind_descr(ma, c, c.meta)
        a = c.lookup(name)
        if a is not MISSING:
            if isinstance(a, (FuncVal, BuiltinFn)):
                return a
            return self.bind_descr(a, MISSING, c)
        if c.meta is not None:
            ma = c.meta.lookup(name)
            if ma is not MISSING:
                return self.bind_descr(ma, c, c.meta)
        self.raise_exc('AttributeError', "type object '%s' has no attribute '%s'" % (c.name, name))

    def getattr_super(self, s, name):
        cls = s.obj if isinstance(s.obj, ClassVal) else self.type_of(s.obj)
        mro = cls.mro
        if s.cls not in mro:
            raise Unsupported('super() of an unrelated class')
        for c in mro[mro.index(s.cls) + 1:]:
            if name in c.ns:
                a = c.ns[name]
                if isinstance(s.obj, ClassVal):
                    if isinstance(a, ClassM):
                        return BoundMethod(a.f, s.obj)
                    return a.f if isinstance(a, StaticM) else a
                return self.bind_descr(a, s.obj, cls)
        self.raise_exc('AttributeError', 'super has no %s' % name)

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            a = o.cls.lookup(name)
            if isinstance(a, PropertyV):
                if a.fset is None:
                    self.raise_exc('AttributeError', "can't set attribute")
                self.call(a.fset, [o, v])
                return
            if isinstance(a, Obj) and a.cls.lookup('__set__') is not MISSING:
                self.call(a.cls.lookup('__set__'), [a, o, v])
                return
            sa = o.cls.lookup('__setattr__')
            if sa is not MISSING and not isinstance(sa, BuiltinFn):
                self.call(sa, [o, name, v])
                return
            self.set_attr_raw(o, name, v)
            return
        if isinstance(o, Sym) and o.cls is not None:
            a = o.cls.lookup(name)
            if isinstance(a, PropertyV):
                if a.fset is None:
                    self.raise_exc('AttributeError', "can't set attribute")
                self.call(a.fset, [o, v])
                return
            if self.opaque_decl(o.cls, name) is None:
                raise Unsupported('setting attribute %s of opaque %s' % (name, o.cls.name))
            arr = self.field_array(name)
            self.wrote(('fld', name))
            self.fields[name] = z3.Store(arr, o.t, self.to_V(v))
            return
        if isinstance(o, ClassVal):
            if self.loops:
                raise Unsupported('class attribute assignment inside a cut loop')
            o.ns[name] = v
            return
        if isinstance(o, ModuleVal):
            o.ns[name] = v
            return
        if isinstance(o, FuncVal):
            o.attrs[name] = v
            return
        h = self.ghost.get('setattr_opaque')
        if h is not None and isinstance(o, Sym):
            h(self, o, name, v)
            return
        if o is None or isinstance(o, (bool, int, float, str, tuple)):
            self.raise_exc('AttributeError', name)
        raise Unsupported('setattr on %r' % (o,))

    def delattr(self, o, name):
        if isinstance(o, Obj):
            a = o.cls.lookup(name)
            if isinstance(a, Obj) and a.cls.lookup('__delete__') is not MISSING:
                self.call(a.cls.lookup('__delete__'), [a, o])
                return
            if name in o.attrs:
                self.wrote(('attr', o.label, name), o)
                del o.attrs[name]
                return
            self.raise_exc('AttributeError', name)
        raise Unsupported('delattr')

    # ------------------------------------------------------------ classes
    def make_class(self, name, bases, ns, meta, module, node=None):
        if meta is None:
            for b in bases:
                if isinstance(b, ClassVal) and b.meta is not None:
                    meta = b.meta
                    break
                if isinstance(b, WithMeta):
                    meta = b.meta
        flat = []
        for b in bases:
            if isinstance(b, WithMeta):
                flat.extend(b.bases)
            else:
                flat.append(b)
        ns = dict(ns)
        if meta is not None and isinstance(meta, ClassVal) and meta.lookup('__new__') is not MISSING:
            new = meta.lookup('__new__')
            if isinstance(new, StaticM):
                new = new.f
            d = self.new_dict(ns)
            self.pending_class = (module, node, meta)
            c = self.call(new, [meta, name, tuple(flat), d])
            return c
        return self.create_class(name, flat, ns, meta, module, node)

    def create_class(self, name, bases, ns, meta, module, node):
        if not bases:
            bases = [self.B['object']]
        for b in bases:
            if not isinstance(b, ClassVal):
                raise Unsupported('base class %r' % (b,))
        c = ClassVal(name, bases, ns, None, module, meta, node)
        self.register_class(c)
        for f in ns.values():
            g = f.f if isinstance(f, (ClassM, StaticM)) else f
            if isinstance(g, PropertyV):
                for h in (g.fget, g.fset, g.fdel):
                    if isinstance(h, FuncVal) and h.owner is None:
                        h.owner = c
                continue
            if isinstance(g, FuncVal) and g.owner is None:
                g.owner = c
        return c

    def instantiate(self, c, args, kwargs):
        h = self.ghost.get('instantiate')
        if h is not None:
            r = h(self, c, args, kwargs)
            if r is not MISSING:
                return r
        new = c.lookup('__new__')
        if new is not MISSING and not isinstance(new, BuiltinFn):
            if isinstance(new, StaticM):
                new = new.f
            o = self.call(new, [c] + list(args), kwargs)
            if not (isinstance(o, Obj) and c in o.cls.mro):
                return o
        elif new is not MISSING:
            o = new.fn(self, [c] + list(args), kwargs)
            if not isinstance(o, Obj):
                return o
            if c.host is not None and c.lookup('__init__') is MISSING:
                return o
        else:
            o = self.new(c)
            self.init_payload(o, c)
        init = c.lookup('__init__')
        if init is MISSING:
            if (args or kwargs) and not self.is_exc_class(c) and new is MISSING:
                self.raise_exc('TypeError', '%s() takes no arguments' % c.name)
            if self.is_exc_class(c):
                o.data = tuple(args)
        else:
            if self.is_exc_class(c):
                o.data = tuple(args)
            self.call(init, [o] + list(args), kwargs)
        return o

    def is_exc_class(self, c):
        return self.B['BaseException'] in c.mro

    def init_payload(self, o, c):
        for m in c.mro:
            if m.host is list:
                o.data = ListData()
            elif m.host is dict:
                o.data = DictData({})
            elif m.host in (set, frozenset):
                o.data = SetData()
            else:
                continue
            return

    # ------------------------------------------------------------ truth and comparison
    def bool_term(self, x):
        """Host bool or z3 Bool."""
        if x is None:
            return False
        if isinstance(x, (bool, int, float, str, bytes, tuple)):
            return bool(x)
        if isinstance(x, Sym):
            k = x.kind
            if k == 'Bool':
                return x.t
            if k == 'Int':
                return x.t != 0
            if k == 'Str':
                return z3.Length(x.t) > 0
            if k == 'Flt':
                return z3.Not(z3.fpIsZero(x.t))
            if x.cls is not None:
                b = x.cls.lookup('__bool__')
                if b is not MISSING:
                    return self.bool_term(self.call(b, [x]))
                ln = x.cls.lookup('__len__')
                if ln is not MISSING:
                    n = self.call(ln, [x])
                    return self.int_term(n) != 0
                return True
            return self.truth_V(x.t)
        if isinstance(x, Obj):
            b = x.cls.lookup('__bool__')
            if b is not MISSING:
                return self.bool_term(self.call(b, [x]))
            ln = x.cls.lookup('__len__')
            if ln is not MISSING and not isinstance(ln, BuiltinFn):
                n = self.call(ln, [x])
                if isinstance(n, int):
                    return n != 0
                return self.int_term(n) != 0
            if isinstance(x.data, ListData):
                n = self.list_len(x)
                return n != 0 if isinstance(n, int) else n.t > 0
            if isinstance(x.data, DictData):
                if x.data.concrete:
                    return bool(x.data.items)
                return self.set_nonempty_term(x.data.dom)
            if isinstance(x.data, SetData):
                if x.data.dom is None:
                    return bool(x.data.items)
                return self.set_nonempty_term(x.data.dom)
            if ln is not MISSING and x.data is None:
                return self.int_term(self.call(ln, [x])) != 0
            return True
        if isinstance(x, IterV):
            return True
        return True

    def set_nonempty_term(self, dom):
        kind = dom.decl().kind()
        if kind == z3.Z3_OP_STORE and z3.is_true(dom.arg(2)):
            return z3.BoolVal(True)
        ms = self.finite_members(dom)
        if ms is None and kind == z3.Z3_OP_SET_DIFFERENCE:
            a, b = dom.arg(0), dom.arg(1)
            if a.decl().kind() == z3.Z3_OP_STORE and z3.is_true(a.arg(2)):
                return z3.Or(z3.Not(z3.Select(b, a.arg(1))), self.set_nonempty_term(z3.SetDifference(a.arg(0), b)))
        if ms is not None:
            return z3.Or([z3.Select(dom, m) for m in ms]) if ms else z3.BoolVal(False)
        return NONEMPTY(dom)

    def finite_members(self, dom):
        """Terms among which all members of the set are (None when not known)."""
        if z3.is_K(dom):
            return [] if z3.is_false(dom.arg(0)) else None
        kind = dom.decl().kind()
        if kind == z3.Z3_OP_STORE:
            b = self.finite_members(dom.arg(0))
            return None if b is None else b + [dom.arg(1)]
        if kind == z3.Z3_OP_SET_DIFFERENCE:
            return self.finite_members(dom.arg(0))
        if kind == z3.Z3_OP_SET_INTERSECT:
            for i in range(dom.num_args()):
                b = self.finite_members(dom.arg(i))
                if b is not None:
                    return b
        if kind == z3.Z3_OP_SET_UNION:
            bs = [self.finite_members(dom.arg(i)) for i in range(dom.num_args())]
            return None if any(b is None for b in bs) else [x for b in bs for x in b]
        return None

    def set_size(self, dom):
        """The number of members, with the facts that follow from how the set was built."""
        n = CARD(dom)
        self.assume(n >= 0)
        self.assume((n > 0) == self.set_nonempty_term(dom))
        if z3.is_K(dom) and z3.is_false(dom.arg(0)):
            self.assume(n == 0)
        elif dom.decl().kind() == z3.Z3_OP_STORE:
            b, k, v = dom.arg(0), dom.arg(1), dom.arg(2)
            m = self.set_size(b)
            had = z3.Select(b, k)
            self.assume(n == m + z3.If(z3.And(v, z3.Not(had)), z3.IntVal(1), z3.IntVal(0))
                        - z3.If(z3.And(z3.Not(v), had), z3.IntVal(1), z3.IntVal(0)))
        return n

    def truth_V(self, t):
        return z3.If(V.is_none(t), False,
               z3.If(V.is_bool(t), V.b(t),
               z3.If(V.is_int(t), V.i(t) != 0,
               z3.If(V.is_str(t), z3.Length(V.s(t)) > 0,
               z3.If(V.is_flt(t), z3.Not(z3.fpIsZero(V.f(t))),
               z3.If(V.is_tup0(t), False,
               z3.If(z3.Or(V.is_pair(t), V.is_trip(t)), True, self.truth_ref(t))))))))

    def truth_ref(self, t):
        key = ('truth', t.get_id())
        if key not in self.axiom_done:
            self.axiom_done[key] = t
            for n in ('list', 'dict', 'tuple', 'bytes'):
                self.assume(z3.Implies(z3.And(V.is_ref(t), ISINST(t, z3.StringVal(n))),
                                       TRUTH(t) == (PYLEN(t) > 0)))
            for o in list(self.by_id.values()):
                if isinstance(o, Obj) and o.oid in self.embedded and o.data is None \
                        and o.cls.lookup('__bool__') is MISSING and o.cls.lookup('__len__') is MISSING:
                    self.assume(TRUTH(V.ref(z3.IntVal(o.oid))))
        return TRUTH(t)

    def truth(self, x):
        b = self.bool_term(x)
        return self.branch(b)

    def int_term(self, x):
        x = self.narrow(x)
        if isinstance(x, bool):
            return z3.IntVal(int(x))
        if isinstance(x, int):
            return z3.IntVal(x)
        if isinstance(x, Sym):
            if x.kind == 'Int':
                return x.t
            if x.kind == 'Bool':
                return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('integer expected, got %r' % (x,))

    def str_term(self, x):
        x = self.narrow(x)
        if isinstance(x, str):
            return z3.StringVal(x)
        if isinstance(x, Sym) and x.kind == 'Str':
            return x.t
        raise Unsupported('string expected, got %r' % (x,))

    def is_ident(self, a, b):
        """`a is b` as host bool or z3 Bool."""
        if a is b:
            return True
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool) or \
                isinstance(a, (Obj, ClassVal, FuncVal, ModuleVal, BuiltinFn)) or \
                isinstance(b, (Obj, ClassVal, FuncVal, ModuleVal, BuiltinFn)):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return False if not (is_prim(a) and is_prim(b)) else a is b
            if isinstance(a, BoundMethod) or isinstance(b, BoundMethod) or isinstance(a, tuple) or isinstance(b, tuple):
                return False
            return self.to_V(a) == self.to_V(b)
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.t.eq(b.t):
                return True
            if a.cls is not None and b.cls is not None:
                return a.t == b.t
            if a.kind == 'V' and b.kind == 'V' and (self.entails(V.is_ref(a.t)) or self.entails(V.is_ref(b.t))):
                return a.t == b.t
        if isinstance(a, (tuple, BoundMethod, IterV)) or isinstance(b, (tuple, BoundMethod, IterV)):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return False
        raise Unsupported('identity of %r and %r' % (a, b))

    def eq_term(self, a, b):
        """`a == b` as host bool or z3 Bool."""
        if a is b and not isinstance(a, float):
            return True
        if is_prim(a) and is_prim(b):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            ts = [self.eq_term(x, y) for x, y in zip(a, b)]
            if any(t is False for t in ts):
                return False
            ts = [t for t in ts if t is not True]
            return z3.And(ts) if ts else True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                m = x.cls.lookup('__eq__')
                if m is not MISSING and not isinstance(m, BuiltinFn):
                    return self.bool_term(self.call(m, [x, y]))
                if isinstance(x.data, ListData):
                    if isinstance(y, Obj) and isinstance(y.data, ListData):
                        if x.data.concrete and y.data.concrete:
                            return self.eq_term(tuple(x.data.items()), tuple(y.data.items()))
                        return self.list_term(x) == self.list_term(y)
                    if isinstance(y, Sym) and y.kind == 'V':
                        if self.ghost.get('value_lists'):
                            return self.to_V(x) == y.t
                        raise Unsupported('list == unknown')
                    return False
                if isinstance(x.data, (DictData, SetData)):
                    if isinstance(y, Obj) and type(y.data) is type(x.data):
                        raise Unsupported('dict/set equality')
                    if isinstance(y, Sym) and y.kind == 'V':
                        raise Unsupported('dict == unknown')
                    return False
        if isinstance(a, (ClassVal, FuncVal, BuiltinFn, ModuleVal)) or isinstance(b, (ClassVal, FuncVal, BuiltinFn, ModuleVal)) \
                or (isinstance(a, Obj) and isinstance(b, Obj)):
            return self.is_ident(a, b) if not (isinstance(a, tuple) or isinstance(b, tuple)) else False
        if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
            return a.func is b.func and a.self_ is b.self_
        if isinstance(a, tuple) != isinstance(b, tuple) and not isinstance(a, Sym) and not isinstance(b, Sym):
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and len(x) not in (0, 2, 3) and isinstance(y, Sym):
                if y.kind != 'V':
                    return False
                # equality of an unknown value with a tuple of this length: an unknown relation of the two
                f = z3.Function('tuple_eq_%d' % len(x), *([V] * (len(x) + 1) + [z3.BoolSort()]))
                return z3.And(V.is_ref(y.t), f(y.t, *[self.to_V(e) for e in x]))
        if isinstance(a, Sym) and isinstance(b, Sym) and self.by_identity(a) and self.by_identity(b):
            return a.t == b.t
        ka = a.kind if isinstance(a, Sym) else None
        kb = b.kind if isinstance(b, Sym) else None
        if ka and kb and ka == kb and ka != 'V':
            return z3.fpEQ(a.t, b.t) if ka == 'Flt' else a.t == b.t
        return self.eq_V(self.to_V(a), self.to_V(b))

    def by_identity(self, x):
        """An object of a class that does not define equality."""
        return (isinstance(x, Obj) and x.data is None or isinstance(x, Sym) and x.cls is not None) and \
            x.cls.lookup('__eq__') in (MISSING, self.B['object'].lookup('__eq__'))

    def eq_V(self, x, y):
        x, y = z3.simplify(x), z3.simplify(y)

        def num(t):
            return z3.If(V.is_int(t), V.i(t), z3.If(V.b(t), z3.IntVal(1), z3.IntVal(0)))

        def intlike(t):
            return z3.Or(V.is_int(t), V.is_bool(t))
        known_x, known_y = self.known_ctor(x), self.known_ctor(y)
        # fast paths on literals
        simple = ('none', 'str')
        if known_x in simple or known_y in simple:
            return x == y
        for p, q, kp in ((x, y, known_x), (y, x, known_y)):
            if kp == 'ref':
                i = p.arg(0)
                if z3.is_int_value(i) and i.as_long() in self.by_id:
                    return x == y      # engine-allocated object without __eq__: identity
        self.assume(UEQ(x, y) == UEQ(y, x))
        return z3.If(z3.And(intlike(x), intlike(y)), num(x) == num(y),
               z3.If(z3.And(V.is_flt(x), V.is_flt(y)), z3.fpEQ(V.f(x), V.f(y)),
               z3.If(z3.And(intlike(x), V.is_flt(y)), NUMEQ(num(x), V.f(y)),
               z3.If(z3.And(V.is_flt(x), intlike(y)), NUMEQ(num(y), V.f(x)),
               z3.If(z3.And(V.is_ref(x), V.is_ref(y)), z3.Or(x == y, UEQ(x, y)),
               z3.If(z3.Or(V.is_ref(x), V.is_ref(y)),
                     z3.And(UEQ(x, y), z3.Not(z3.Or(V.is_none(x), V.is_none(y), V.is_str(x), V.is_str(y)))),
                     x == y))))))

    def known_ctor(self, t):
        d = t.decl()
        for n in ('none', 'bool', 'int', 'flt', 'str', 'tup0', 'pair', 'trip', 'ref'):
            if d.eq(getattr(V, n)) if n not in ('none', 'tup0') else t.eq(getattr(V, n)):
                return n
        return None

    def compare(self, op, a, b):
        if op == 'Is':
            return self.wrapb(self.is_ident(a, b))
        if op == 'IsNot':
            return self.notb(self.is_ident(a, b))
        if op == 'Eq':
            return self.wrapb(self.eq_term(a, b))
        if op == 'NotEq':
            return self.notb(self.eq_term(a, b))
        if op == 'In':
            return self.wrapb(self.contains(b, a))
        if op == 'NotIn':
            return self.notb(self.contains(b, a))
        return self.order(op, a, b)

    def wrapb(self, b):
        return b if isinstance(b, bool) else self.lift(b)

    def notb(self, b):
        return (not b) if isinstance(b, bool) else self.lift(z3.Not(b))

    def order(self, op, a, b):
        a, b = self.narrow(a), self.narrow(b)
        if op == 'Gt':
            return self.order('Lt', b, a)
        if op == 'GtE':
            return self.order('LtE', b, a)
        strict = op == 'Lt'
        num = (int, float)
        if isinstance(a, num) and isinstance(b, num):
            return a < b if strict else a <= b
        if isinstance(a, str) and isinstance(b, str):
            return a < b if strict else a <= b
        if isinstance(a, tuple) and isinstance(b, tuple) and all(is_prim(x) for x in a + b):
            try:
                return a < b if strict else a <= b
            except TypeError:
                self.raise_exc('TypeError', 'not comparable')
        ints = all(isinstance(x, int) or (isinstance(x, Sym) and x.kind in ('Int', 'Bool')) for x in (a, b))
        if ints:
            x, y = self.int_term(a), self.int_term(b)
            return self.lift(x < y if strict else x <= y)
        if isinstance(a, (Obj,)) or isinstance(b, (Obj,)):
            raise Unsupported('ordering of objects')
        x, y = self.to_V(a), self.to_V(b)
        kx, ky = self.known_ctor(z3.simplify(x)), self.known_ctor(z3.simplify(y))
        # None and containers are never comparable
        for k, t in ((kx, x), (ky, y)):
            if k == 'none':
                self.raise_exc('TypeError', 'not comparable')
        if self.ghost.get('order_may_fail'):
            for t in (x, y):
                if self.branch(V.is_none(t)):
                    self.raise_exc('TypeError', 'not comparable')
        return self.lift(self.order_V(x, y, strict))

    def order_V(self, x, y, strict=True):
        def num(t):
            return z3.If(V.is_int(t), V.i(t), z3.If(V.b(t), z3.IntVal(1), z3.IntVal(0)))

        def intlike(t):
            return z3.Or(V.is_int(t), V.is_bool(t))
        return z3.If(z3.And(intlike(x), intlike(y)), (num(x) < num(y)) if strict else (num(x) <= num(y)),
               z3.If(z3.And(V.is_flt(x), V.is_flt(y)),
                     z3.fpLT(V.f(x), V.f(y)) if strict else z3.fpLEQ(V.f(x), V.f(y)),
                     ULT(x, y) if strict else ULE(x, y)))

    # ------------------------------------------------------------ containment, len, indexing
    def contains(self, c, x):
        c = self.narrow(c)
        if isinstance(c, tuple):
            ts = [self.ident_or_eq(y, x) for y in c]
            if any(t is True for t in ts):
                return True
            ts = [t for t in ts if t is not False]
            return z3.Or(ts) if ts else False
        if isinstance(c, str) or (isinstance(c, Sym) and c.kind == 'Str'):
            x = self.narrow(x)
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            return z3.Contains(self.str_term(c), self.str_term(x))
        if isinstance(c, Obj):
            m = c.cls.lookup('__contains__')
            if m is not MISSING and not isinstance(m, BuiltinFn):
                return self.bool_term(self.call(m, [c, x]))
            if isinstance(c.data, ListData):
                return self.list_contains(c, x)
            if isinstance(c.data, DictData):
                return self.dict_has(c, x)
            if isinstance(c.data, SetData):
                return self.set_has(c, x)
            if m is not MISSING and c.data is None and c.cls.owner('__contains__').host is None:
                return self.bool_term(self.call(m, [c, x]))
            g = c.cls.lookup('__iter__')
            if g is MISSING:
                g = c.cls.lookup('__getitem__')
            if g is MISSING:
                self.raise_exc('TypeError', 'not a container')
            raise Unsupported('containment in %r' % (c,))
        if isinstance(c, Sym) and c.kind == 'V':
            if c.cls is not None:
                m = c.cls.lookup('__contains__')
                if m is not MISSING:
                    return self.bool_term(self.call(m, [c, x]))
            h = self.ghost.get('contains_opaque')
            if h is not None:
                r = h(self, c, x)
                if r is not MISSING:
                    return r
            raise Unsupported('containment in unknown value')
        if c is None or isinstance(c, (bool, int, float)):
            self.raise_exc('TypeError', 'not iterable')
        if isinstance(c, IterV):
            v = getattr(c, 'view', None)
            if v is not None and v[1] == 'keys':
                return self.dict_has(v[0], x)
            ts = [self.ident_or_eq(y, x) for y in self.to_host_list(c)]
            if any(t is True for t in ts):
                return True
            ts = [t for t in ts if t is not False]
            return z3.Or(ts) if ts else False
        raise Unsupported('containment in %r' % (c,))

    def ident_or_eq(self, a, b):
        return True if a is b else self.eq_term(a, b)

    def length(self, x):
        x = self.narrow(x)
        if isinstance(x, (str, bytes, tuple)):
            return len(x)
        if isinstance(x, Sym):
            if x.kind == 'Str':
                return self.lift(z3.Length(x.t))
            if x.kind == 'V':
                if x.cls is not None:
                    m = x.cls.lookup('__len__')
                    if m is not MISSING:
                        return self.call(m, [x])
                h = self.ghost.get('len_opaque')
                if h is not None:
                    r = h(self, x)
                    if r is not MISSING:
                        return r
                t = x.t
                if self.branch(z3.Or(V.is_none(t), V.is_int(t), V.is_bool(t), V.is_flt(t))):
                    self.raise_exc('TypeError', 'object has no len()')
                self.assume(z3.Implies(V.is_ref(t), PYLEN(t) >= 0))
                return self.lift(z3.If(V.is_str(t), z3.Length(V.s(t)),
                                 z3.If(V.is_tup0(t), z3.IntVal(0),
                                 z3.If(V.is_pair(t), z3.IntVal(2),
                                 z3.If(V.is_trip(t), z3.IntVal(3), PYLEN(t))))))
            self.raise_exc('TypeError', 'no len()')
        if isinstance(x, Obj):
            m = x.cls.lookup('__len__')
            if m is not MISSING and not isinstance(m, BuiltinFn):
                return self.call(m, [x])
            if isinstance(x.data, ListData):
                return self.list_len(x)
            if isinstance(x.data, DictData):
                if x.data.concrete:
                    return len(x.data.items)
                n = self.set_size(x.data.dom)
                if x.data.keyseq is not None:
                    self.assume(z3.Length(x.data.keyseq) == n)
                return self.lift(n)
            if isinstance(x.data, SetData):
                if x.data.dom is None:
                    return len(x.data.items)
                return self.lift(self.set_size(x.data.dom))
            if m is not MISSING:
                return self.call(m, [x])
        self.raise_exc('TypeError', 'object has no len()')

    def getitem(self, o, i):
        o = self.narrow(o)
        if isinstance(o, tuple):
            if isinstance(i, slice):
                return o[self.host_slice(i)]
            i = self.host_int(i, len(o))
            try:
                return o[i]
            except IndexError:
                self.raise_exc('IndexError', 'tuple index out of range')
        if isinstance(o, str) and (isinstance(i, int) or (isinstance(i, slice) and self.is_host_slice(i))):
            try:
                return o[i]
            except IndexError:
                self.raise_exc('IndexError', 'string index out of range')
        if isinstance(o, str) or (isinstance(o, Sym) and o.kind == 'Str'):
            return self.str_getitem(self.str_term(o), i)
        if isinstance(o, Obj):
            m = o.cls.lookup('__getitem__')
            if m is not MISSING and not isinstance(m, BuiltinFn):
                return self.call(m, [o, i])
            if isinstance(o.data, ListData):
                return self.list_getitem(o, i)
            if isinstance(o.data, DictData):
                return self.dict_get(o, i)
            if m is not MISSING:
                return self.call(m, [o, i])
        if isinstance(o, Sym) and o.kind == 'V':
            if o.cls is not None:
                m = o.cls.lookup('__getitem__')
                if m is not MISSING:
                    return self.call(m, [o, i])
            h = self.ghost.get('getitem_opaque')
            if h is not None:
                r = h(self, o, i)
                if r is not MISSING:
                    return r
            raise Unsupported('subscript of unknown value')
        if isinstance(o, ClassVal):
            raise Unsupported('class subscript')
        self.raise_exc('TypeError', 'object is not subscriptable')

    def is_host_slice(self, s):
        return all(x is None or isinstance(x, int) for x in (s.start, s.stop, s.step))

    def host_slice(self, s):
        if not self.is_host_slice(s):
            raise Unsupported('symbolic slice of a tuple')
        return s

    def host_int(self, i, n=None):
        i = self.narrow(i)
        if isinstance(i, (bool, int)):
            return int(i)
        if isinstance(i, Sym) and i.kind == 'Int':
            if n is not None:
                for j in range(-n, n):
                    if self.branch(i.t == j):
                        return j
                return n
        if isinstance(i, Sym):
            raise Unsupported('symbolic index')
        self.raise_exc('TypeError', 'indices must be integers')

    def setitem(self, o, i, v):
        o = self.narrow(o)
        if isinstance(o, Obj):
            m = o.cls.lookup('__setitem__')
            if m is not MISSING and not isinstance(m, BuiltinFn):
                self.call(m, [o, i, v])
                return
            if isinstance(o.data, ListData):
                self.list_setitem(o, i, v)
                return
            if isinstance(o.data, DictData):
                self.dict_set(o, i, v)
                return
            if m is not MISSING:
                self.call(m, [o, i, v])
                return
        if isinstance(o, Sym) and o.cls is not None:
            m = o.cls.lookup('__setitem__')
            if m is not MISSING:
                self.call(m, [o, i, v])
                return
        if isinstance(o, Sym):
            h = self.ghost.get('setitem_opaque')
            if h is not None:
                return h(self, o, i, v)
            raise Unsupported('item assignment on unknown value')
        self.raise_exc('TypeError', 'no item assignment')

    def delitem(self, o, i):
        o = self.narrow(o)
        if isinstance(o, Obj):
            m = o.cls.lookup('__delitem__')
            if m is not MISSING and not isinstance(m, BuiltinFn):
                self.call(m, [o, i])
                return
            if isinstance(o.data, ListData):
                self.list_delitem(o, i)
                return
            if isinstance(o.data, DictData):
                self.dict_del(o, i)
                return
            if m is not MISSING:
                self.call(m, [o, i])
                return
        if isinstance(o, Sym) and o.cls is not None:
            m = o.cls.lookup('__delitem__')
            if m is not MISSING:
                self.call(m, [o, i])
                return
        raise Unsupported('del item of %r' % (o,))

    # ------------------------------------------------------------ lists
    def list_term(self, o):
        parts = []
        for c in o.data.chunks:
            parts.append(z3.Unit(self.to_V(c[1])) if c[0] == 'e' else c[1])
            if c[0] == 'e' and isinstance(c[1], Obj):
                self.embedded.add(c[1].oid)
        if not parts:
            return z3.Empty(SEQ)
        return parts[0] if len(parts) == 1 else z3.Concat(*parts)

    def list_hint(self, o):
        hs = {c[2] for c in o.data.chunks if c[0] == 's'}
        for c in o.data.chunks:
            if c[0] == 'e':
                hs.add(c[1].cls if isinstance(c[1], Sym) else None)
        return hs.pop() if len(hs) == 1 else None

    def list_len(self, o):
        n, syms = 0, []
        for c in o.data.chunks:
            if c[0] == 'e':
                n += 1
            else:
                syms.append(z3.Length(c[1]))
        if not syms:
            return n
        return self.lift(z3.Sum([z3.IntVal(n)] + syms) if n else (syms[0] if len(syms) == 1 else z3.Sum(syms)))

    def list_append(self, o, v):
        self.write_data(o)
        o.data.chunks.append(('e', v))

    def list_extend(self, o, v):
        v = self.narrow(v)
        if isinstance(v, Obj) and isinstance(v.data, ListData):
            chunks = list(v.data.chunks)
        elif isinstance(v, IterV) and v.seq is not None:
            chunks = list(v.seq)
        else:
            it = self.iterate(v)
            if isinstance(it.n, int):
                chunks = [('e', it.get(k)) for k in range(it.n)]
            elif it.seq is not None:
                chunks = list(it.seq)
            else:
                self.loop_into(it, lambda x: self.list_append(o, x))
                return
        self.write_data(o)
        o.data.chunks = self.join_chunks(o.data.chunks, chunks)

    def loop_into(self, it, f):
        """Consume an iterable of unknown length with a native body."""
        from .interp import Scope
        node = self.cur

        def body(v):
            f(v)
        self.run_loop(node, it, body, Scope(None, None, set()), set())

    def list_contains(self, o, x):
        ts = []
        for c in o.data.chunks:
            if c[0] == 'e':
                t = self.ident_or_eq(c[1], x)
                if t is True:
                    return True
                if t is not False:
                    ts.append(t)
            else:
                ts.append(self.seq_contains(c[1], x))
        return z3.Or(ts) if ts else False

    def seq_contains(self, s, x):
        x = self.narrow(x)
        if isinstance(x, Obj) and isinstance(x.data, (ListData, DictData, SetData)) and not self.ghost.get('value_lists'):
            m = x.cls.lookup('__eq__')
            if m is MISSING or isinstance(m, BuiltinFn):
                raise Unsupported('a container is looked for among unknown values')
        if x is None or isinstance(x, (str, Obj)) or (isinstance(x, Sym) and x.kind == 'Str') \
                or (isinstance(x, Sym) and x.cls is not None):
            return z3.Contains(s, z3.Unit(self.to_V(x)))
        t = self.to_V(x)
        exact = z3.Contains(s, z3.Unit(t))
        self.assume(z3.Implies(INSEQ(s, t), z3.Length(s) > 0))
        if isinstance(x, Sym) and x.kind == 'V':
            return z3.If(z3.Or(V.is_str(t), V.is_none(t)), exact, INSEQ(s, t))
        return INSEQ(s, t)

    def norm_index(self, i, n):
        """Index normalised to 0..n-1 as a term; raises IndexError otherwise."""
        it, nt = self.int_term(i), self.int_term(n)
        if isinstance(i, int):
            j = it if i >= 0 else nt + it
            ok = j < nt if i >= 0 else j >= 0
        else:
            j = it if self.entails(it >= 0) else z3.If(it < 0, nt + it, it)
            ok = z3.And(j >= 0, j < nt)
        if not self.branch(ok):
            self.raise_exc('IndexError', 'list index out of range')
        return z3.simplify(j)

    def list_getitem(self, o, i):
        d = o.data
        if isinstance(i, slice):
            return self.list_slice(o, i)
        i = self.narrow(i)
        if not (isinstance(i, int) or (isinstance(i, Sym) and i.kind in ('Int', 'Bool'))):
            if isinstance(i, Sym) and i.kind == 'V':
                if self.branch(z3.Or(V.is_int(i.t), V.is_bool(i.t))):
                    if self.branch(V.is_int(i.t)):
                        i = Sym(V.i(i.t))
                    else:
                        i = Sym(z3.If(V.b(i.t), z3.IntVal(1), z3.IntVal(0)))
                else:
                    self.raise_exc('TypeError', 'list indices must be integers')
            else:
                self.raise_exc('TypeError', 'list indices must be integers')
        if d.concrete:
            j = self.host_int(i, len(d.chunks))
            try:
                return d.chunks[j][1]
            except IndexError:
                self.raise_exc('IndexError', 'list index out of range')
        if isinstance(i, int):
            # try the concrete ends first
            if i >= 0:
                for p, c in enumerate(d.chunks[:i + 1]):
                    if c[0] == 's':
                        break
                else:
                    if i < len(d.chunks):
                        return d.chunks[i][1]
            else:
                for p, c in enumerate(reversed(d.chunks)):
                    if c[0] == 's':
                        break
                    if p == -i - 1:
                        return c[1]
        n = self.list_len(o)
        j = self.norm_index(i, n)
        # split off a concrete tail/head when the index provably falls there
        if len(d.chunks) == 1:
            c = d.chunks[0]
            return self.seq_elem(c[1], j, c[2])
        off = z3.IntVal(0)
        for c in d.chunks:
            ln = z3.IntVal(1) if c[0] == 'e' else z3.Length(c[1])
            if self.branch(j < off + ln):
                return c[1] if c[0] == 'e' else self.seq_elem(c[1], z3.simplify(j - off), c[2])
            off = z3.simplify(off + ln)
        raise PathEnd()

    def sub_chunk(self, t, lo, ln, hint):
        """Chunks for t[lo:lo+ln] (0 <= lo, lo+ln <= len t), in a normal form that keeps solver terms small."""
        lo, ln = z3.simplify(lo), z3.simplify(ln)
        if z3.is_int_value(ln) and ln.as_long() == 0 or self.entails(ln == 0):
            return []
        if z3.is_int_value(lo) and lo.as_long() == 0 and self.entails(ln == z3.Length(t)):
            return [('s', t, hint)]
        if t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
            return [('s', z3.Extract(t.arg(0), z3.simplify(t.arg(1) + lo), ln), hint)]
        return [('s', z3.Extract(t, lo, ln), hint)]

    def join_chunks(self, a, b):
        """a + b, merging adjacent slices of the same sequence."""
        a, b = list(a), list(b)
        if a and b and a[-1][0] == 's' and b[0][0] == 's':
            x, y = a[-1][1], b[0][1]
            if x.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and y.decl().kind() == z3.Z3_OP_SEQ_EXTRACT \
                    and x.arg(0).eq(y.arg(0)) and self.entails(x.arg(1) + x.arg(2) == y.arg(1)):
                m = self.sub_chunk(x.arg(0), x.arg(1), x.arg(2) + y.arg(2), a[-1][2])
                return a[:-1] + m + b[1:]
        return a + b

    def seq_elem(self, s, j, hint=None):
        if s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
            s, j = s.arg(0), z3.simplify(s.arg(1) + j)      # j is within bounds
        t = s[j]
        inv = self.ghost.get('elem_inv')
        if hint is not None and hint.host is str:
            self.assume(V.is_str(t))
            return self.lift(V.s(t))
        if hint is not None:
            self.assume(V.is_ref(t))
            ei = hint.ns.get('__elem_inv__')
            if ei is not None:
                self.assume(ei(self, t, j, s))
        return self.lift(t, hint)

    def clamp(self, x, n, default):
        if x is None:
            return default
        x = self.int_term(x)
        if self.entails(z3.And(x >= 0, x <= n)):
            return z3.simplify(x)
        x = z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), z3.If(x > n, n, x))
        return z3.simplify(x)

    def list_slice(self, o, s):
        d = o.data
        if s.step is not None and s.step != 1:
            if s.step == -1 and s.start is None and s.stop is None and d.concrete:
                return self.new_list(d.chunks[::-1])
            raise Unsupported('slice step')
        if d.concrete and self.is_host_slice(s):
            return self.new_list(d.chunks[s])
        n = self.int_term(self.list_len(o))
        lo = self.clamp(s.start, n, z3.IntVal(0))
        hi = self.clamp(s.stop, n, n)
        ch = self.chunk_slice(d, lo, hi)
        if ch is not None:
            return self.new_list(ch)
        ln = z3.simplify(hi - lo if self.entails(hi >= lo) else z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        hint = self.list_hint(o)
        r = self.new_list(self.sub_chunk(self.list_term(o), lo, ln, hint))
        r.ghost = {'slice_of': o, 'off': lo}
        return r

    def chunk_slice(self, d, lo, hi):
        """Slice along chunk boundaries when lo/hi provably fall on them."""
        bounds = [z3.IntVal(0)]
        for c in d.chunks:
            bounds.append(z3.simplify(bounds[-1] + (z3.IntVal(1) if c[0] == 'e' else z3.Length(c[1]))))
        if len(d.chunks) > 24:
            return None
        def find(x):
            for i, b in enumerate(bounds):
                if x.eq(b) or self.entails(x == b):
                    return i
            return None
        i = find(lo)
        if i is None:
            return None
        j = find(hi)
        if j is None:
            return None
        return d.chunks[i:max(i, j)]

    def list_setitem(self, o, i, v):
        d = o.data
        self.write_data(o)
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                new = self.new_list()
                self.list_extend(new, v)
                d.chunks = new.data.chunks
                return
            raise Unsupported('slice assignment')
        if d.concrete and isinstance(self.narrow(i), int):
            i = self.narrow(i)
            if not -len(d.chunks) <= i < len(d.chunks):
                self.raise_exc('IndexError', 'list assignment index out of range')
            d.chunks[i] = ('e', v)
            return
        if isinstance(i, int) and i < 0 and all(c[0] == 'e' for c in d.chunks[i:]) and len(d.chunks) >= -i:
            d.chunks[i] = ('e', v)
            return
        n = self.list_len(o)
        j = self.norm_index(i, n)
        t = self.list_term(o)
        nt = self.int_term(n)
        hint = self.list_hint(o)
        d.chunks = [('s', z3.simplify(z3.Extract(t, z3.IntVal(0), j)), hint), ('e', v),
                    ('s', z3.simplify(z3.Extract(t, j + 1, nt - j - 1)), hint)]

    def list_delitem(self, o, i):
        d = o.data
        self.write_data(o)
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('del slice step')
            if d.concrete and self.is_host_slice(i):
                del d.chunks[i]
                return
            n = self.int_term(self.list_len(o))
            lo = self.clamp(i.start, n, z3.IntVal(0))
            hi = self.clamp(i.stop, n, n)
            a = self.chunk_slice(d, z3.IntVal(0), lo)
            b = self.chunk_slice(d, hi, n)
            if a is not None and b is not None and self.entails(lo <= hi):
                d.chunks = a + b
                return
            t = self.list_term(o)
            hint = self.list_hint(o)
            hi2 = hi if self.entails(hi >= lo) else z3.If(hi > lo, hi, lo)
            d.chunks = self.sub_chunk(t, z3.IntVal(0), lo, hint) + self.sub_chunk(t, hi2, n - hi2, hint)
            return
        i = self.narrow(i)
        if d.concrete and isinstance(i, int):
            try:
                del d.chunks[i]
            except IndexError:
                self.raise_exc('IndexError', 'list assignment index out of range')
            return
        if isinstance(i, int) and i < 0 and len(d.chunks) >= -i and all(c[0] == 'e' for c in d.chunks[i:]):
            del d.chunks[i]
            return
        n = self.list_len(o)
        j = self.norm_index(i, n)
        nt = self.int_term(n)
        a = self.chunk_slice(d, z3.IntVal(0), j)
        b = self.chunk_slice(d, z3.simplify(j + 1), nt)
        if a is not None and b is not None:
            d.chunks = a + b
            return
        t = self.list_term(o)
        hint = self.list_hint(o)
        d.chunks = self.sub_chunk(t, z3.IntVal(0), j, hint) + self.sub_chunk(t, j + 1, nt - j - 1, hint)

    def list_insert(self, o, i, v):
        d = o.data
        self.write_data(o)
        i = self.narrow(i)
        if d.concrete and isinstance(i, int):
            items = d.chunks
            items.insert(i, ('e', v))
            return
        if i == 0 and isinstance(i, int):
            d.chunks.insert(0, ('e', v))
            return
        n = self.int_term(self.list_len(o))
        j = self.clamp(i, n, n)
        if j.eq(n) or self.entails(j == n):
            d.chunks.append(('e', v))
            return
        a = self.chunk_slice(d, z3.IntVal(0), j)
        b = self.chunk_slice(d, j, n)
        if a is not None and b is not None:
            d.chunks = a + [('e', v)] + b
            return
        t = self.list_term(o)
        hint = self.list_hint(o)
        d.chunks = [('s', z3.simplify(z3.Extract(t, z3.IntVal(0), j)), hint), ('e', v),
                    ('s', z3.simplify(z3.Extract(t, j, n - j)), hint)]

    def list_pop(self, o, i=-1):
        v = self.list_getitem(o, i) if not self.empty_list(o) else self.raise_exc('IndexError', 'pop from empty list')
        self.list_delitem(o, i)
        return v

    def empty_list(self, o):
        return o.data.concrete and not o.data.chunks

    # ------------------------------------------------------------ dicts
    def dict_find(self, o, key):
        """Concrete dict: the stored key equal to `key` (forking on symbolic equality), or MISSING."""
        d = o.data
        self.check_hashable(key)
        if not isinstance(key, Sym) and not (isinstance(key, tuple) and any(isinstance(x, Sym) for x in key)):
            try:
                if key in d.items:
                    return [k for k in d.items if k is key or (not isinstance(k, Sym) and k == key)][0]
            except TypeError:
                self.raise_exc('TypeError', 'unhashable')
            cands = [k for k in d.items if isinstance(k, Sym) or (isinstance(k, tuple) and any(isinstance(x, Sym) for x in k))]
        else:
            cands = list(d.items)
        for k in cands:
            t = self.ident_or_eq(k, key)
            if t is True or (t is not False and self.branch(t)):
                return k
        return MISSING

    def check_hashable(self, key):
        if isinstance(key, Obj) and isinstance(key.data, (ListData, DictData, SetData)) \
                and key.cls.lookup('__hash__') is MISSING:
            self.raise_exc('TypeError', 'unhashable type')
        if isinstance(key, tuple):
            for k in key:
                self.check_hashable(k)

    def dict_has(self, o, key):
        d = o.data
        if d.concrete:
            if not isinstance(key, Sym):
                return self.dict_find(o, key) is not MISSING
            ts = [self.ident_or_eq(k, key) for k in d.items]
            if any(t is True for t in ts):
                return True
            ts = [t for t in ts if t is not False]
            return z3.Or(ts) if ts else False
        self.check_hashable(key)
        has = z3.Select(d.dom, self.to_V(key))
        self.assume(z3.Implies(has, NONEMPTY(d.dom)))
        return has

    def dict_get(self, o, key):
        d = o.data
        if d.concrete:
            k = self.dict_find(o, key)
            if k is MISSING:
                return self.raise_key(o, key)
            return d.items[k]
        self.check_hashable(key)
        t = self.to_V(key)
        if not self.branch(z3.Select(d.dom, t)):
            return self.raise_key(o, key)
        return self.lift(z3.Select(d.val, t), d.vcls)

    def raise_key(self, o, key):
        m = o.cls.lookup('__missing__')
        if m is not MISSING:
            return self.call(m, [o, key])
        self.raise_exc('KeyError', key)

    def dict_set(self, o, key, v):
        d = o.data
        self.write_data(o)
        if d.concrete:
            if isinstance(key, Sym) and key.kind == 'V' and key.cls is None and self.ghost.get('arrays'):
                dom, val = self.dict_arrays(o)
                o.data = DictData(dom=dom, val=val)
                d = o.data
            else:
                k = self.dict_find(o, key)
                d.items[key if k is MISSING else k] = v
                return
        t = self.to_V(key)
        d.dom = z3.Store(d.dom, t, z3.BoolVal(True))
        d.val = z3.Store(d.val, t, self.to_V(v))
        if isinstance(v, Obj):
            self.embedded.add(v.oid)
        d.keyseq = None

    def dict_del(self, o, key):
        d = o.data
        if d.concrete:
            k = self.dict_find(o, key)
            if k is MISSING:
                self.raise_exc('KeyError', key)
            self.write_data(o)
            del d.items[k]
            return
        t = self.to_V(key)
        if not self.branch(z3.Select(d.dom, t)):
            self.raise_exc('KeyError', key)
        self.write_data(o)
        d.dom = z3.Store(d.dom, t, z3.BoolVal(False))
        d.keyseq = None

    def dict_arrays(self, o):
        d = o.data
        if not d.concrete:
            return d.dom, d.val
        dom = z3.K(V, z3.BoolVal(False))
        val = z3.K(V, V.none)
        for k, v in d.items.items():
            t = self.to_V(k)
            dom = z3.Store(dom, t, z3.BoolVal(True))
            val = z3.Store(val, t, self.to_V(v))
            if isinstance(v, Obj):
                self.embedded.add(v.oid)
        return dom, val

    def dict_update(self, o, src):
        src = self.narrow(src)
        if isinstance(src, Obj) and isinstance(src.data, DictData):
            if src.data.concrete:
                for k, v in list(src.data.items.items()):
                    self.dict_set(o, k, v)
                return
            x = z3.Const('upd_k', V)
            dom, val = self.dict_arrays(o)
            self.write_data(o)
            sd, sv = src.data.dom, src.data.val
            o.data = DictData(dom=z3.Lambda([x], z3.Or(z3.Select(dom, x), z3.Select(sd, x))),
                              val=z3.Lambda([x], z3.If(z3.Select(sd, x), z3.Select(sv, x), z3.Select(val, x))),
                              vcls=o.data.vcls)
            return
        h = self.ghost.get('update_opaque')
        if h is not None and h(self, o, src):
            return
        it = self.iterate(src)
        n = it.n if isinstance(it.n, int) else z3.simplify(it.n)
        if self.bound is None and not isinstance(n, int) and not z3.is_int_value(n):
            dom, val = self.dict_arrays(o)
            self.write_data(o)
            o.data = DictData(dom=dom, val=val, vcls=o.data.vcls)

            def put(kv):
                k, v = self.unpack(kv, 2)
                self.dict_set(o, k, v)
            self.loop_into(it, put)
            return
        for kv in self.to_host_list(it):
            k, v = self.unpack(kv, 2)
            self.dict_set(o, k, v)

    # ------------------------------------------------------------ sets
    def set_term(self, o):
        if o.data.dom is not None:
            return o.data.dom
        t = z3.K(V, z3.BoolVal(False))
        for x in o.data.items:
            t = z3.Store(t, self.to_V(x), z3.BoolVal(True))
        return t

    def set_has(self, o, x):
        if o.data.dom is not None:
            return z3.Select(o.data.dom, self.to_V(x))
        ts = [self.ident_or_eq(y, x) for y in o.data.items]
        if any(t is True for t in ts):
            return True
        ts = [t for t in ts if t is not False]
        return z3.Or(ts) if ts else False

    def set_add(self, o, x):
        self.check_hashable(x)
        if o.data.dom is None:
            if not isinstance(x, Sym) and not any(isinstance(y, Sym) for y in o.data.items):
                if self.set_has(o, x) is True:
                    return
                self.write_data(o)
                o.data.items.append(x)
                return
            strs = self.all_strs(o.data)
            self.write_data(o)
            o.data = SetData(dom=self.set_term(o), strs=strs)
        else:
            self.write_data(o)
            o.data = SetData(dom=o.data.dom, strs=o.data.strs)
        if not self.is_text(x):
            o.data.strs = False
        o.data.dom = z3.Store(o.data.dom, self.to_V(x), z3.BoolVal(True))
        self.assume(NONEMPTY(o.data.dom))

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        a, b = self.narrow(a), self.narrow(b)
        num = (int, float)
        if isinstance(a, num) and isinstance(b, num):
            try:
                return self.host_op(op, a, b)
            except ZeroDivisionError:
                self.raise_exc('ZeroDivisionError', 'division by zero')
        if isinstance(a, str) and isinstance(b, str) and op == 'Add':
            return a + b
        if isinstance(a, str) and isinstance(b, int) and op == 'Mult':
            return a * b
        if isinstance(a, str) and op == 'Mod':
            return self.percent_format(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and op == 'Mult':
            return a * b
        sa = isinstance(a, str) or (isinstance(a, Sym) and a.kind == 'Str')
        sb = isinstance(b, str) or (isinstance(b, Sym) and b.kind == 'Str')
        if sa and sb and op == 'Add':
            return self.lift(z3.Concat(self.str_term(a), self.str_term(b)))
        ia = isinstance(a, int) or (isinstance(a, Sym) and a.kind in ('Int', 'Bool'))
        ib = isinstance(b, int) or (isinstance(b, Sym) and b.kind in ('Int', 'Bool'))
        if ia and ib:
            x, y = self.int_term(a), self.int_term(b)
            if op == 'Add':
                return self.lift(x + y)
            if op == 'Sub':
                return self.lift(x - y)
            if op == 'Mult':
                return self.lift(x * y)
            if op in ('FloorDiv', 'Mod') and isinstance(b, int) and b > 0:
                return self.lift(x / y if op == 'FloorDiv' else x % y)
            raise Unsupported('integer operator %s' % op)
        la = isinstance(a, Obj) and isinstance(a.data, ListData)
        lb = isinstance(b, Obj) and isinstance(b.data, ListData)
        if la and lb and op == 'Add':
            return self.new_list(a.data.chunks + b.data.chunks)
        if la and op == 'Mult' and isinstance(b, int):
            return self.new_list(a.data.chunks * b)
        if la and op == 'Add':
            if isinstance(b, Sym) and b.kind == 'V':
                raise Unsupported('list + unknown')
            self.raise_exc('TypeError', 'can only concatenate list')
        if isinstance(a, Obj) and isinstance(a.data, SetData):
            return self.set_op(op, a, b)
        if isinstance(a, Obj):
            nm = {'Add': '__add__', 'Sub': '__sub__', 'BitAnd': '__and__', 'BitOr': '__or__'}.get(op)
            m = a.cls.lookup(nm) if nm else MISSING
            if m is not MISSING:
                return self.call(m, [a, b])
        h = self.ghost.get('binop_opaque')
        if h is not None:
            r = h(self, op, a, b)
            if r is not MISSING:
                return r
        if is_prim(a) and is_prim(b) or isinstance(a, tuple) and not isinstance(b, Sym):
            self.raise_exc('TypeError', 'unsupported operand types')
        raise Unsupported('operator %s on %r and %r' % (op, a, b))

    def host_op(self, op, a, b):
        import operator as o
        f = {'Add': o.add, 'Sub': o.sub, 'Mult': o.mul, 'Div': o.truediv, 'FloorDiv': o.floordiv, 'Mod': o.mod,
             'Pow': o.pow, 'BitAnd': o.and_, 'BitOr': o.or_, 'BitXor': o.xor}.get(op)
        if f is None:
            raise Unsupported('operator %s' % op)
        return f(a, b)

    def set_op(self, op, a, b):
        if not (isinstance(b, Obj) and isinstance(b.data, SetData)):
            if isinstance(b, Obj) and isinstance(b.data, DictData):
                bb = self.new(self.B['set'])
                bb.data = SetData(dom=self.dict_arrays(b)[0])
                b = bb
            elif isinstance(b, IterV) and b.src is not None and isinstance(b.src.data, DictData):
                bb = self.new(self.B['set'])
                bb.data = SetData(dom=self.dict_arrays(b.src)[0])
                b = bb
            else:
                self.raise_exc('TypeError', 'unsupported operand for set')
        r = self.new(self.B['set'])
        if a.data.dom is None and b.data.dom is None and \
                not any(isinstance(x, Sym) for x in a.data.items + b.data.items):
            inb = [x for x in a.data.items if self.set_has(b, x)]
            if op == 'BitAnd':
                r.data = SetData(inb)
            elif op == 'Sub':
                r.data = SetData([x for x in a.data.items if x not in inb])
            elif op == 'BitOr':
                r.data = SetData(a.data.items + [x for x in b.data.items if not self.set_has(a, x)])
            else:
                raise Unsupported('set %s' % op)
            return r
        x, y = self.set_term(a), self.set_term(b)
        if op == 'BitAnd':
            t = z3.SetIntersect(x, y)
        elif op == 'Sub':
            t = z3.SetDifference(x, y)
        elif op == 'BitOr':
            t = z3.SetUnion(x, y)
        else:
            raise Unsupported('set %s' % op)
        sa, sb = self.all_strs(a.data), self.all_strs(b.data)
        r.data = SetData(dom=t, strs={'BitAnd': sa or sb, 'Sub': sa, 'BitOr': sa and sb}[op])
        return r

    # ------------------------------------------------------------ iteration
    def iterate(self, x):
        if isinstance(x, IterV):
            return x
        if isinstance(x, tuple):
            return IterV(len(x), lambda k: x[k], seq=[('e', v) for v in x])
        x = self.narrow(x)
        if isinstance(x, tuple):
            return self.iterate(x)
        if isinstance(x, str):
            return IterV(len(x), lambda k: x[k])
        if isinstance(x, Sym):
            if x.kind == 'Str':
                t = x.t
                return IterV(z3.Length(t), lambda k: self.lift(z3.SubString(t, k if not isinstance(k, int) else z3.IntVal(k), 1)))
            if x.kind == 'V':
                if x.cls is not None and x.cls.lookup('__iter__') is not MISSING:
                    return self.iterate(self.call(x.cls.lookup('__iter__'), [x]))
                h = self.ghost.get('iter_opaque')
                if h is not None:
                    r = h(self, x)
                    if r is not MISSING:
                        return self.iterate(r)
                raise Unsupported('iteration over unknown value')
            self.raise_exc('TypeError', 'not iterable')
        if isinstance(x, Obj):
            m = x.cls.lookup('__iter__')
            if m is not MISSING and not isinstance(m, BuiltinFn):
                if self.is_stdlib_seq_iter(m):
                    return self.iter_by_index(x)
                return self.iterate(self.call(m, [x]))
            if isinstance(x.data, ListData):
                return self.iter_list(x)
            if isinstance(x.data, DictData):
                if x.data.concrete:
                    ks = list(x.data.items)
                    it = IterV(len(ks), lambda k: ks[k], src=x, seq=[('e', k) for k in ks])
                    it.src_n = len(ks)
                    return it
                return self.iter_symdict(x)
            if isinstance(x.data, SetData):
                if x.data.dom is None:
                    vs = list(x.data.items)
                    return IterV(len(vs), lambda k: vs[k], seq=[('e', v) for v in vs])
                return self.iter_symset(x)
            if m is not MISSING:
                return self.iterate(self.call(m, [x]))
            if x.cls.lookup('__getitem__') is not MISSING and x.cls.lookup('__len__') is not MISSING:
                return self.iter_by_index(x)
        if isinstance(x, ClassVal):
            self.raise_exc('TypeError', 'type is not iterable')
        self.raise_exc('TypeError', 'object is not iterable')

    def is_stdlib_seq_iter(self, m):
        return isinstance(m, FuncVal) and m.module.name == '_collections_abc' and m.owner is not None \
            and m.owner.name == 'Sequence'

    def iter_by_index(self, x):
        n = self.length(x)
        n = n if isinstance(n, int) else self.int_term(n)
        return IterV(n, lambda k: self.getitem(x, k if isinstance(k, int) else self.lift(k)))

    def iter_list(self, x):
        n = self.list_len(x)
        chunks = list(x.data.chunks)
        off = x.ghost['off'] if x.ghost and 'off' in x.ghost else None

        # (elements are read from the list as it is then; that its length stays the same is checked by the loops)
        if isinstance(n, int):
            def at(k):
                cs = x.data.chunks
                return cs[k][1] if all(c[0] == 'e' for c in cs) else self.list_elem(cs, k)
            it = IterV(n, at, src=x, seq=chunks)
            it.src_n, it.src_len = len(chunks), n
            return it
        self.list_term(x)
        it = IterV(self.int_term(n), lambda k: self.list_elem(x.data.chunks, k), src=x, off=off, seq=chunks)
        it.src_len = n
        it.src_n = len(chunks)
        return it

    def list_elem(self, chunks, k):
        kk = z3.IntVal(k) if isinstance(k, int) else k
        if len(chunks) == 1 and chunks[0][0] == 's':
            return self.seq_elem(chunks[0][1], kk, chunks[0][2])
        o = z3.IntVal(0)
        for c in chunks:
            ln = z3.IntVal(1) if c[0] == 'e' else z3.Length(c[1])
            if self.branch(kk < o + ln):
                return c[1] if c[0] == 'e' else self.seq_elem(c[1], z3.simplify(kk - o), c[2])
            o = z3.simplify(o + ln)
        raise PathEnd()

    def is_text(self, x):
        x = self.narrow(x)
        return isinstance(x, str) or (isinstance(x, Sym) and x.kind == 'Str')

    def all_strs(self, d):
        """Every element of the list or set content is known to be a text."""
        if isinstance(d, SetData):
            return d.strs if d.dom is not None else all(self.is_text(x) for x in d.items)
        return all(self.is_text(c[1]) if c[0] == 'e' else c[2] is not None and c[2].host is str for c in d.chunks)

    def iter_symset(self, x):
        """Members of a symbolic set, each once, in an arbitrary order."""
        dom, strs = x.data.dom, x.data.strs
        ms = self.fresh('members', SEQ)
        self.assume(z3.Length(ms) == self.set_size(dom))
        self.assume(z3.Implies(z3.Length(ms) > 0, z3.Select(dom, ms[0])))
        for y in self.ghost.get('observed_members', ()):         # (the enumeration has every member)
            self.assume(z3.Contains(ms, z3.Unit(y)) == z3.Select(dom, y))
        hint = self.B['str'] if strs else None

        def get(k):
            kk = z3.IntVal(k) if isinstance(k, int) else k
            self.assume(z3.Select(dom, ms[kk]))
            return self.seq_elem(ms, kk, hint)
        it = IterV(z3.Length(ms), get, src=x, seq=[('s', ms, hint)])
        it.src_n = None
        return it

    def iter_symdict(self, x):
        """Keys of a symbolic dict, in an arbitrary but fixed order."""
        d = x.data
        if d.keyseq is None:
            d.keyseq = self.fresh('keys', SEQ)
        ks = d.keyseq
        dom = d.dom
        self.assume(z3.Length(ks) == self.set_size(dom))

        def get(k):
            kk = z3.IntVal(k) if isinstance(k, int) else k
            self.assume(z3.Select(dom, ks[kk]))
            return self.lift(ks[kk], d.kcls)
        it = IterV(z3.Length(ks), get, src=x, seq=[('s', ks, d.kcls)])
        it.src_n = None
        return it

    def to_host_list(self, x):
        it = self.iterate(x)
        n = it.n
        if not isinstance(n, int):
            n = z3.simplify(n)
            if z3.is_int_value(n):
                n = n.as_long()
        if not isinstance(n, int):
            if self.bound is not None:
                if self.branch(n > self.bound):
                    self.res.truncated = True
                    raise PathEnd()
                c = 0
                while c < self.bound and not self.branch(n == c):
                    c += 1
                self.assume(n == c)
                n = c
            else:
                raise Unsupported('sequence of unknown length needed as a whole')
        return [it.get(k) for k in range(n)]

    # ------------------------------------------------------------ strings
    def concat_str(self, parts):
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        ts = []
        for p in parts:
            if isinstance(p, str):
                if p:
                    ts.append(z3.StringVal(p))
            else:
                ts.append(p.t)
        return self.lift(ts[0] if len(ts) == 1 else z3.Concat(*ts))

    def py_str(self, x):
        """str(x) as host str or Sym Str."""
        if isinstance(x, str):
            return x
        if x is None or isinstance(x, (bool, int)):
            return str(x)
        if isinstance(x, Sym):
            if x.kind == 'Str':
                return x
            if x.cls is not None and x.cls.lookup('__str__') is not MISSING:
                return self.call(x.cls.lookup('__str__'), [x])
            t = self.to_V(x)
            return self.lift(z3.If(V.is_str(t), V.s(t), STROF(t)))
        if isinstance(x, Obj):
            m = x.cls.lookup('__str__')
            if m is not MISSING and (not isinstance(m, BuiltinFn) or x.cls.owner('__str__').module is self.loader.harness_module):
                return self.call(m, [x])
            if self.is_exc_class(x.cls):
                a = x.data
                if not a:
                    return ''
                if len(a) == 1:
                    return self.py_str(a[0])
                return Sym(STROF(self.to_V(x)))
            m = x.cls.lookup('__repr__')
            if m is not MISSING and not isinstance(m, BuiltinFn):
                return self.call(m, [x])
            return Sym(STROF(self.to_V(x)))
        if isinstance(x, ClassVal):
            return "<class '%s'>" % x.name
        if isinstance(x, tuple):
            try:
                return Sym(STROF(self.to_V(x)))
            except Unsupported:
                return Sym(self.fresh('str', STR))
        return Sym(STROF(self.to_V(x)))

    def py_repr(self, x):
        if is_prim(x):
            return repr(x)
        if isinstance(x, Obj):
            m = x.cls.lookup('__repr__')
            if m is not MISSING and not isinstance(m, BuiltinFn):
                return self.call(m, [x])
        if isinstance(x, tuple):
            return Sym(self.fresh('repr', STR))
        return Sym(REPROF(self.to_V(x)))

    def str_format(self, fmt, args, kwargs):
        import string
        if not isinstance(fmt, str):
            h = self.ghost.get('format_opaque')
            if h is not None:
                return h(self, fmt, args, kwargs)
            return Sym(self.fresh('formatted', STR))
        parts = []
        auto = 0
        try:
            pieces = list(string.Formatter().parse(fmt))
        except ValueError:
            self.raise_exc('ValueError', 'bad format')
        for lit, field, spec, conv in pieces:
            if lit:
                parts.append(lit)
            if field is None:
                continue
            if spec:
                raise Unsupported('format spec %r' % spec)
            import re
            m = re.match(r'^([^.\[]*)(.*)$', field)
            head, rest = m.group(1), m.group(2)
            if head == '':
                head = str(auto)
                auto += 1
            if head.isdigit():
                if int(head) >= len(args):
                    self.raise_exc('IndexError', 'replacement index out of range')
                v = args[int(head)]
            else:
                if head not in kwargs:
                    self.raise_exc('KeyError', head)
                v = kwargs[head]
            while rest:
                m = re.match(r'^\.([^.\[]+)(.*)$', rest)
                if not m:
                    raise Unsupported('format field %r' % field)
                v = self.getattr(v, m.group(1))
                rest = m.group(2)
            parts.append(self.py_repr(v) if conv == 'r' else self.py_str(v))
        return self.concat_str(parts)

    def percent_format(self, fmt, arg):
        args = list(arg) if isinstance(arg, tuple) else [arg]
        import re
        parts = []
        pos = 0
        for m in re.finditer(r'%(%|s|r|d)', fmt):
            parts.append(fmt[pos:m.start()])
            pos = m.end()
            if m.group(1) == '%':
                parts.append('%')
                continue
            if not args:
                self.raise_exc('TypeError', 'not enough arguments for format string')
            v = args.pop(0)
            parts.append(self.py_repr(v) if m.group(1) == 'r' else self.py_str(v))
        parts.append(fmt[pos:])
        if '%' in ''.join(p for p in parts if isinstance(p, str) and p != '%') and False:
            raise Unsupported('percent format')
        if args:
            self.raise_exc('TypeError', 'not all arguments converted')
        return self.concat_str(parts)

    def str_getitem(self, t, i):
        n = z3.Length(t)
        if isinstance(i, slice):
            if i.step is not None:
                if i.step == -1 and i.start is None and i.stop is None:
                    return Sym(z3.Function('str_reverse', STR, STR)(t))
                raise Unsupported('string slice step')
            lo = self.clamp(i.start, n, z3.IntVal(0))
            hi = self.clamp(i.stop, n, n)
            return self.lift(z3.SubString(t, lo, z3.If(hi > lo, hi - lo, z3.IntVal(0))))
        j = self.norm_index(i, self.lift(n))
        return self.lift(z3.SubString(t, j, 1))


class WithMeta(object):
    """six.with_metaclass(meta, *bases)"""

    def __init__(self, meta, bases):
        self.meta, self.bases = meta, bases
