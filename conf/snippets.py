"""Concrete programs run both by PyPy and by the pyvc engine; their results must agree (engine conformance)."""
import pilo
from pilo import fields, ctx



def errs(es):
    return [type(e).__name__ + ':' + str(e) for e in es]


def flat(x):
    if isinstance(x, dict):
        return [type(x).__name__, [[k, flat(x[k])] for k in sorted(x.keys(), key=str)]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [flat(y) for y in x]]
    if isinstance(x, pilo._Constant):
        return 'const ' + x.name
    return x


class Sub(pilo.Form):
    a = fields.Integer().min(2)
    b = fields.String(default='dd')


class F(pilo.Form):
    x = fields.Integer('ex', default=None).min(1).max(10)
    y = fields.List(fields.String(min_length=2), length=(1, 3))
    z = fields.Dict(fields.String(), fields.Float(), default=dict)
    s = fields.SubForm(Sub, default=None)
    t = fields.Tuple((fields.Integer(), fields.String()), default=None)

    @x.munge
    def x(self, value):
        return value + 1 if value is not None else value


def s1():
    out = []
    for src in [
        {'ex': 3, 'y': ['aa', 'bb']},
        {'ex': 'q', 'y': ['aa', 'b']},
        {'ex': None, 'y': []},
        {'y': 'abc'},
        {'y': ['aa'], 'z': {'k': '1.5', 'j': 'zz'}},
        {'y': ['aa'], 's': {'a': 5}},
        {'y': ['aa'], 's': {'a': 1, 'b': 3}},
        {'y': ['aa'], 't': [1, 'k']},
        {'y': ['aa'], 't': [1, 2]},
        {'y': ['aa'], 't': [1]},
        {},
    ]:
        f = F()
        e = f.map(src)
        out.append([errs(e), flat(f), len(ctx.stack)])
    return out


def s2():
    out = []
    src = pilo.DefaultSource({'a': {'b': [1, {'c': None}]}, 'al': 9, 'd.e': 4}, aliases={'zz': 'al'})
    with ctx(src=src):
        for keys in [['a'], ['a', 'b'], ['a', 'b', 0], ['a', 'b', 5], ['a.b'], ['a', 'nope', 'q'], ['zz'], ['d.e'],
                     ['a', 'b', 1, 'c'], ['a', 'keys()']]:
            cs = []
            for k in keys:
                c = ctx(src=k)
                cs.append(c)
            p = ctx.src_path
            out.append([str(p), p.exists, p.is_null])
            for c in reversed(cs):
                c.__exit__(None, None, None)
            out.append(str(ctx.src_path))
    return out


def s3():
    f = F({'ex': 1, 'y': ['aa'], 's': {'a': 2}})
    out = [flat(f), f.x, f.y, f.s.b, f.has('x')]
    out.append(flat(f.copy()))
    out.append([[g.name for g in path] + [flat(v)] for path, v in f.flatten()])
    out.append([g.name for g in F.fields])
    try:
        F({'ex': 99})
    except pilo.fields.FormError as e:
        out.append(str(e))
    try:
        f.nope
    except AttributeError as e:
        out.append('AE')
    g = F()
    try:
        g.y
    except pilo.fields.FormError as e:
        out.append(str(e))
    return out


def s4():
    u = pilo.UnionSource([{'a': 1, 'b': {'c': 2}, 'l': [1, 2]}, {'b': {'d': 3}, 'l': [3], 'e': 5}], merge='combine')
    out = []
    with ctx(src=u):
        for k in ['a', 'b', 'l', 'e', 'zz']:
            with ctx(src=k):
                out.append([str(ctx.src_path), ctx.src_path.exists])
        with ctx(src='b'):
            out.append(sorted(ctx.src_path.mapping()))
            with ctx(src='d'):
                out.append(ctx.src_path.primitive(int))
        with ctx(src='l'):
            out.append(ctx.src_path.sequence())
            for i in range(3):
                with ctx(src=i):
                    out.append(ctx.src_path.primitive(int))
    return out


class Animal(pilo.Form):
    kind = fields.Type.abstract()


class Dog(Animal):
    kind = fields.Type.constant('dog')
    bark = fields.Integer()


class Cat(Animal):
    kind = fields.Type.instance('cat')
    meow = fields.String()


class Zoo(pilo.Form):
    a = fields.PolymorphicSubForm(Animal.kind)


def s5():
    out = []
    for src in [{'a': {'kind': 'dog', 'bark': 3}}, {'a': {'kind': 'cat', 'meow': 'x'}}, {'a': {'kind': 'eel'}},
                {'a': {}}, {'a': {'kind': 'cat', 'meow': 3}}]:
        z = Zoo()
        e = z.map(src)
        out.append([errs(e), flat(z)])
    out.append(Animal.kind.cast({'kind': 'dog'}).__name__)
    return out


def s6():
    out = []
    with ctx(a=1):
        with ctx(b=2):
            out.append([ctx.a, ctx.b, ctx.values_for('a')])
            with ctx(a=3):
                out.append([ctx.a, ctx.values_for('a')])
                with ctx.rewind(lambda fr: 'b' in fr):
                    out.append([ctx.a, len(ctx.stack)])
                out.append([ctx.a, len(ctx.stack)])
            with ctx.reset():
                out.append([ctx.src, ctx.src_path, ctx.a])
    try:
        with ctx.rewind(lambda fr: False):
            pass
    except ctx.RewindDidNotStop:
        out.append('dns')
    out.append(len(ctx.stack))
    return out


class G(pilo.Form):
    g = fields.Group(('x', fields.Integer()), ('y', fields.String()))
    u = fields.String('uu', tags='t1').tag('t2')
    v = fields.Boolean(default=False)


def s7():
    out = []
    for src in [{'x': 1, 'y': 's', 'q': 2, 'uu': 'k'}, {'x': 'bad', 'uu': 'k', 'v': 'T'}, {'uu': 3}]:
        f = G()
        e = f.map(src)
        out.append([errs(e), flat(f)])
        f2 = G()
        e = f2.map(src, tags=['t1'], unmapped='capture')
        out.append([errs(e), flat(f2)])
        out.append([flat(f2.filter('t2')), flat(f2.filter('t2', inv=True)), flat(f2)])
    return out


ALL = [s1, s2, s3, s4, s5, s6, s7]
