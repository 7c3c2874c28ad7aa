"""Fields and forms described by data: built with the real library, and mapped by an independent interpreter of the statements."""
import datetime
import decimal
import functools
import json
import re
import time
import uuid
import iso8601
import pilo
from pilo import NONE, ERROR, NOT_SET, fields as pf
from pilo.context import ctx
from pilo.source import DefaultSource, JsonSource, UnionSource
from lib import need, bad, run
import c05

MARK = {'NONE': NONE, 'ERROR': ERROR, 'NOT_SET': NOT_SET}
GONE = object()


# ---------------------------------------------------------------- values
def enc(v):
    """A JSON rendering of a value that `dec` undoes."""
    if isinstance(v, datetime.datetime):
        return {'$': 'datetime', 'v': v.isoformat()}
    if isinstance(v, datetime.date):
        return {'$': 'date', 'v': v.isoformat()}
    if isinstance(v, datetime.time):
        return {'$': 'time', 'v': v.isoformat()}
    if isinstance(v, decimal.Decimal):
        return {'$': 'decimal', 'v': str(v)}
    if isinstance(v, complex):
        return {'$': 'complex', 'v': [v.real, v.imag]}
    if isinstance(v, uuid.UUID):
        return {'$': 'uuid', 'v': str(v)}
    if isinstance(v, time.struct_time):
        return {'$': 'struct_time', 'v': list(v)}
    if isinstance(v, tuple):
        return {'$': 'tuple', 'v': [enc(x) for x in v]}
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, float) and v != v or v in (float('inf'), float('-inf')):
        return {'$': 'float', 'v': repr(v)}
    if isinstance(v, dict):
        if all(isinstance(k, str) for k in v) and '$' not in v:
            return dict((k, enc(x)) for k, x in v.items())
        return {'$': 'dict', 'v': [[enc(k), enc(x)] for k, x in v.items()]}
    return v


def dec(v):
    if isinstance(v, list):
        return [dec(x) for x in v]
    if not isinstance(v, dict):
        return v
    t = v.get('$')
    if t is None:
        return dict((k, dec(x)) for k, x in v.items())
    x = v['v']
    if t == 'datetime':
        return datetime.datetime.fromisoformat(x)
    if t == 'date':
        return datetime.date.fromisoformat(x)
    if t == 'time':
        return datetime.time.fromisoformat(x)
    if t == 'decimal':
        return decimal.Decimal(x)
    if t == 'complex':
        return complex(*x)
    if t == 'uuid':
        return uuid.UUID(x)
    if t == 'struct_time':
        return time.struct_time(x)
    if t == 'tuple':
        return tuple(dec(y) for y in x)
    if t == 'float':
        return float(x)
    if t == 'dict':
        return dict((dec(k), dec(y)) for k, y in x)
    raise ValueError(t)


# ---------------------------------------------------------------- hooks
class Boom(KeyError):
    """A client's own exception."""


def odd(v):
    return len(show(v)) % 2 == 1


def show(v):
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(show(x) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ','.join(sorted('%s:%s' % (show(k), show(x)) for k, x in v.items())) + '}'
    for n, m in MARK.items():
        if v is m:
            return n
    if hasattr(v, 'groups'):
        return show(('match', v.re.pattern, v.group(0), v.groups()))
    return '%s %r' % (type(v).__name__, v)


def behave(b, value, path_value=None, prim=None, read=None):
    """What a hook with behaviour b answers."""
    op = b[0]
    if op in MARK:
        return MARK[op]
    if op == 'const':
        return dec(b[1])
    if op == 'same':
        return value
    if op == 'wrap':
        return '<' + show(value) + '>'
    if op == 'none':
        return None
    if op == 'true':
        return True
    if op == 'false':
        return False
    if op == 'truthy':
        return [1]
    if op == 'falsy':
        return ''
    if op == 'odd':
        return odd(value)
    if op == 'even':
        return not odd(value)
    if op == 'boom':
        raise Boom('client')
    if op == 'value-error':
        raise ValueError('client value error')
    if op == 'raw':
        return path_value()
    if op == 'int':
        return prim('int')
    if op in ('read', 'root'):
        return read(b[1], op == 'root')
    if op == 'isin':
        return value in dec(b[1])
    raise ValueError(op)


# ---------------------------------------------------------------- building the real thing
class Built(object):
    """The real fields and forms of a case."""

    def __init__(self, log):
        self.log = log
        self.classes = {}
        self.ids = {}

    def record(self, sid, name, value):
        self.log.append((sid, name, show(value) if name not in ('parse',) else None, where()))

    def hook(self, sid, name, b):
        rec, built = self.record, self

        def read(form):
            return lambda n, root: getattr(built.root if root else form, n)
        if name in ('compute', 'default'):
            def f(self):
                rec(sid, name, None)
                return behave(b, None, read=read(self))
        elif name == 'parse':
            def f(self, path):
                rec(sid, name, None)
                return behave(b, None, path_value=lambda: path.value, prim=lambda t: path.primitive(int), read=read(self))
        elif name == 'key_filter':
            def f(self, key):
                rec(sid, name, key)
                return behave(b, key)
        else:
            def f(self, value):
                rec(sid, name, value)
                return behave(b, value, read=read(self))
        return f

    def field(self, s):
        k = s['k']
        kw = {}
        args = []
        if 'src' in s and k not in ('group', 'type') and not (k == 'dict'):
            args.append(s['src'])
        d = s.get('default')
        late = []
        if d:
            if d[0] == 'const':
                kw['default'] = dec(d[1])
            elif d[0] == 'none':
                kw['default'] = None
            elif d[0] == 'optional':
                kw['optional'] = True
            elif d[0] == 'callable':
                kw['default'] = lambda made=d[1]: dec(made)
            elif d[0] == 'object':
                kw['default'] = functools.partial(dec, d[1])
            elif d[0] == 'class':
                kw['default'] = list
            elif d[0] == 'hook':
                late.append(('default', d[1]))
        if 'nullable' in s:
            kw['nullable'] = s['nullable']
        if s.get('translate'):
            kw['translate'] = dict((dec(a), dec(b)) for a, b in s['translate'])
        opt = dict((n, dec(s[n])) for n in ('min_length', 'max_length', 'pattern', 'alphabet', 'choices', 'min_value', 'max_value',
                                           'length', 'range', 'after', 'before', 'format', 'allow_field', 'required_keys', 'max_keys',
                                           'reset', 'unmapped', 'flat') if n in s)
        if isinstance(opt.get('range'), list):
            opt['range'] = tuple(opt['range'])
        for n, kind in (s.get('given_as') or {}).items():
            opt[n] = {'tuple': tuple, 'set': set, 'frozenset': frozenset, 'list': list}[kind](opt[n])
        kw.update(opt)
        simple = {'field': pf.Field, 'string': pf.String, 'integer': pf.Integer, 'float': pf.Float, 'decimal': pf.Decimal,
                  'boolean': pf.Boolean, 'date': pf.Date, 'time': pf.Time, 'datetime': pf.Datetime, 'uuid': pf.UUID, 'code': pf.Code}
        if k in simple:
            f = simple[k](*args, **kw)
        elif k == 'list':
            f = pf.List(*(args + [self.field(s['field'])]), **kw)
        elif k == 'tuple':
            subs = [self.field(x) for x in s['fields']]
            f = pf.Tuple(*(args + (subs if s['id'] % 2 and len(subs) > 1 else [subs])), **kw)
        elif k == 'dict':
            f = pf.Dict(self.field(s['key']), self.field(s['value']), *([s['src']] if 'src' in s else []), **kw)
        elif k == 'sub':
            f = pf.SubForm(*(args + [self.form(s['form'])]), **kw)
        elif k == 'poly':
            base = self.form(s['base'])
            for sub in s['forms']:
                self.form(sub)
            f = pf.PolymorphicSubForm(getattr(base, s['type_name']), *args, **kw)
        elif k == 'type':
            f = pf.Type.instance(*s['choices_']) if s['choices_'] is not None else pf.Type.abstract()
        elif k == 'group':
            items = []
            for key, sub in s['fields']:
                if key[0] == 'b':
                    items.append(self.field(dict(sub, src=key[1])))
                else:
                    items.append((key[1] if key[0] == 's' else re.compile(key[1]), self.field(sub)))
            f = pf.Group(*items, **kw)
        else:
            raise ValueError(k)
        if 'nullable_after' in s:
            f.options(nullable=s['nullable_after'])
        for v in s.get('ignores', []):
            f.ignore(dec(v))
        for m, a in s.get('calls', []):
            getattr(f, m)(*[dec(x) for x in a])
        if s.get('tags'):
            f.tag(*s['tags'])
        for name, b in late + sorted(s.get('hooks', {}).items()):
            getattr(f, name)(self.hook(s['id'], name, b))
        self.ids[id(f)] = s['id']
        f._sid = s['id']
        self.keep = getattr(self, 'keep', [])
        self.keep.append(f)
        return f

    def form(self, s):
        if s['name'] in self.classes:
            return self.classes[s['name']]
        base = self.form(s['base']) if s.get('base') else pilo.Form
        ns = {}
        for n, f in s['fields']:
            ns[n] = self.field(f)
        c = type(s['name'], (base,), ns)
        self.classes[s['name']] = c
        return c


def where():
    p = ctx.src_path
    return None if p is None else [x.key for x in p]


# ---------------------------------------------------------------- the interpreter
class Stop(Exception):
    """The statements say an exception leaves the library here."""

    def __init__(self, kind):
        self.kind = kind


class Skip(Exception):
    """The statements do not speak about this case."""


class FormM(dict):
    """A form of the model."""

    def __init__(self, spec, *a):
        dict.__init__(self, *a)
        self.spec = spec

    def __repr__(self):
        return 'Form %s%s' % (self.spec['name'], dict.__repr__(self))


def is_mark(v):
    return v is NONE or v is ERROR or v is NOT_SET


def all_fields(spec):
    """The fields of a form spec in declared order, overriding ones in the overridden one's place."""
    out = all_fields(spec['base']) if spec.get('base') else []
    for n, f in spec['fields']:
        for i, (m, g) in enumerate(out):
            if m == n:
                out[i] = (n, f)
                break
        else:
            out.append((n, f))
    return out


class Reject(Exception):
    """The value cannot be read as asked: a source error or a value error."""


class Model(object):

    def __init__(self, kind, data, ignore_default=False, ignore_missing=False, aliases=None):
        self.kind, self.data = kind, data
        self.aliases = aliases
        self.ignore_default, self.ignore_missing = ignore_default, ignore_missing
        self.keys = []
        self.errors = []
        self.log = []
        self.forms = []          # enclosing forms, innermost last: (form, keys, errors)

    # ------------------------------------------------------------ the source
    def get(self):
        v = self.data
        for i, k in enumerate(self.keys):
            v = self.step(v, k, i == 0)
            if v is GONE:
                return GONE
        return v

    def step(self, c, k, first):
        if isinstance(c, dict):
            try:
                return c[k] if k in c else GONE
            except TypeError:
                return GONE
        if isinstance(c, (list, tuple)) or isinstance(c, str):
            if isinstance(k, int):
                return c[k] if -len(c) <= k < len(c) else GONE
            if first and self.aliases and k in self.aliases:
                return self.step(c, self.aliases[k], False)
        return GONE

    def prim(self, typ):
        v = self.get()
        w = c05.want(self.kind, typ, v)
        if w is None:
            raise Reject()
        return w[0]

    def mapping(self):
        v = self.get()
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (list, tuple, str)) and not self.keys and self.aliases:
            return list(self.aliases)
        raise Reject()

    def sequence(self):
        v = self.get()
        if isinstance(v, (list, tuple)) or (self.kind == 'native' and isinstance(v, str)):
            return len(v)
        raise Reject()

    def path(self):
        out = ''
        for i, k in enumerate(self.keys):
            out += str(k) if i == 0 else '[%d]' % k if isinstance(k, int) else '.' + k
        return out

    # ------------------------------------------------------------ errors
    def invalid(self, f):
        self.errors.append(('Invalid', f['id'], self.path()))
        return ERROR

    def missing(self, f):
        if not self.ignore_missing:
            self.errors.append(('Missing', f['id'], self.path()))
        return NOT_SET

    # ------------------------------------------------------------ fields
    def hook(self, f, name, value=None):
        self.log.append((f['id'], name, show(value) if name != 'parse' else None, list(self.keys)))
        b = f['hooks'][name]
        try:
            return behave(b, value, path_value=self.get, prim=self.prim, read=self.read)
        except Boom:
            raise Stop('Boom')

    def read(self, name, root=False):
        """The form being mapped (or the outermost one) is read at `name` from inside a hook."""
        form, keys, errors = self.forms[0 if root else -1]
        if name in form:
            return form[name]
        self.reads = getattr(self, 'reads', 0) + 1
        if self.reads > 40:
            raise Skip()
        for n, f in all_fields(form.spec):
            if n == name:
                break
        else:
            raise Stop('AttributeError')
        saved = self.keys, self.errors, self.forms
        self.keys, self.errors = list(keys), errors
        if root:
            self.forms = self.forms[:1]
        try:
            v = self.map(f, name)
        finally:
            self.keys, self.errors, self.forms = saved
        if is_mark(v):
            raise Stop('AttributeError')
        form[name] = v
        return v

    def default(self, f, absent):
        d = f.get('default')
        if d is None:
            if f['k'] == 'group':
                d = ['class']
            elif f['k'] == 'type' and f['choices_'] is not None:
                d = ['const', f['choices_'][0]] if len(f['choices_']) == 1 else ['optional']
        if d and d[0] == 'hook' and (absent or not self.ignore_default):
            self.log.append((f['id'], 'default', show(None), list(self.keys)))
            try:
                return behave(d[1], None, read=self.read)
            except Boom:
                raise Stop('Boom')
        if d is None or d[0] == 'hook' or self.ignore_default:
            return self.missing(f)
        return {'const': lambda: dec(d[1]), 'none': lambda: None, 'optional': lambda: NONE, 'callable': lambda: dec(d[1]),
                'object': lambda: dec(d[1]),
                'class': list}[d[0]]()

    def map(self, f, name=None, given=GONE):
        saved = list(self.keys)
        try:
            key = f.get('src', name)
            if given is GONE and key is not None and f['k'] != 'group' and not f.get('flat'):
                self.keys.append(key)
            return self.pipeline(f, given)
        finally:
            self.keys = saved

    def pipeline(self, f, given):
        hooks = f.get('hooks', {})
        if given is not GONE:
            v = given
        else:
            if 'compute' in hooks:
                v = self.hook(f, 'compute')
            else:
                v = self.compute(f)
            if v is NONE:
                return self.default(f, True)
            if is_mark(v):
                return v
        if f.get('translate') and isinstance(v, (list, dict)):
            raise Skip()
        for a, b in f.get('translate', []) or []:
            if not is_mark(v) and v == dec(a):
                v = dec(b)
                break
        if 'munge' in hooks and not is_mark(v):
            v = self.hook(f, 'munge', v)
        if v is NONE:
            return self.default(f, False)
        if is_mark(v):
            return v
        if any(v is x or v == x for x in [dec(x) for x in f.get('ignores', [])]):
            return self.default(f, False)
        if 'filter' in hooks and not self.hook(f, 'filter', v):
            return self.default(f, False)
        try:
            ok = self.valid(f, v)
        except (TypeError, decimal.InvalidOperation):
            raise Skip()             # a hook answered something the built-in checks do not apply to
        if not ok:
            return self.invalid(f)
        if 'validate' in hooks and not self.hook(f, 'validate', v):
            return ERROR
        return v

    def compute(self, f):
        v = self.get()
        if v is GONE:
            return NONE
        if v is None:
            return None
        try:
            if 'parse' in f.get('hooks', {}):
                try:
                    return self.hook(f, 'parse')
                except ValueError:
                    raise Reject()
            return getattr(self, 'parse_' + f['k'])(f, v)
        except Reject:
            return self.invalid(f)

    # ------------------------------------------------------------ parsing
    def parse_field(self, f, v):
        return v

    def parse_string(self, f, v):
        return self.prim('str')

    parse_type = parse_string

    def parse_integer(self, f, v):
        if f.get('calls') and any(c[0] == 'pattern' for c in f['calls']):
            return self.pattern(f, int)
        return self.prim('int')

    def parse_float(self, f, v):
        if f.get('calls') and any(c[0] == 'pattern' for c in f['calls']):
            return self.pattern(f, float)
        return self.prim('float')

    def pattern(self, f, typ):
        t = self.prim('str')
        p = [c[1][0] for c in f['calls'] if c[0] == 'pattern'][0]
        m = re.match(p, t)
        if not m:
            raise Reject()
        try:
            return typ(m.group(0))
        except ValueError:
            raise Reject()

    def parse_boolean(self, f, v):
        return self.prim('bool')

    def parse_decimal(self, f, v):
        if isinstance(v, decimal.Decimal):
            return v
        if isinstance(v, (int, float)):
            return decimal.Decimal(v)
        t = self.prim('str')
        try:
            return decimal.Decimal(t)
        except decimal.InvalidOperation:
            raise Reject()

    def formats(self, f):
        fm = f.get('format')
        for c in f.get('calls', []):
            if c[0] == 'format':
                fm = c[1][0]
        fm = dec(fm)
        return [] if not fm else list(fm) if isinstance(fm, (list, tuple)) else [fm]

    def parse_date(self, f, v):
        if isinstance(v, datetime.date):
            return v
        t = self.prim('str')
        for fm in self.formats(f):
            try:
                if fm == 'iso8601':
                    return iso8601.parse_date(t).date()
                return datetime.datetime.strptime(t, fm).date()
            except (ValueError, iso8601.ParseError):
                pass
        raise Reject()

    def parse_datetime(self, f, v):
        if isinstance(v, datetime.datetime):
            return v
        t = self.prim('str')
        for fm in self.formats(f):
            try:
                if fm == 'iso8601':
                    return iso8601.parse_date(t)
                return datetime.datetime.strptime(t, fm)
            except (ValueError, iso8601.ParseError):
                pass
        raise Reject()

    def parse_time(self, f, v):
        if isinstance(v, (time.struct_time, datetime.time)):
            return v
        t = self.prim('str')
        for fm in self.formats(f):
            try:
                return time.strptime(t, fm)
            except ValueError:
                pass
        raise Reject()

    def parse_uuid(self, f, v):
        if isinstance(v, uuid.UUID):
            return v
        try:
            return uuid.UUID(self.prim('str'))
        except ValueError:
            raise Reject()

    # ------------------------------------------------------------ containers
    def at(self, key, f, name=None):
        self.keys.append(key)
        try:
            return self.map(f, name)
        finally:
            self.keys.pop()

    def parse_list(self, f, v):
        try:
            n = self.sequence()
        except Reject:
            if not f.get('allow_field'):
                raise
            x = self.map(f['field'])
            return x if is_mark(x) else [x]
        out = []
        for i in range(n):
            x = self.at(i, f['field'])
            if not is_mark(x):
                out.append(x)
        return out

    def parse_tuple(self, f, v):
        if self.sequence() != len(f['fields']):
            raise Reject()
        out = []
        for i, g in enumerate(f['fields']):
            x = self.at(i, g)
            if not is_mark(x):
                out.append(x)
        return tuple(out)

    def parse_dict(self, f, v):
        out = {}
        for k in self.mapping():
            if 'key_filter' in f.get('hooks', {}) and not self.hook(f, 'key_filter', k):
                continue
            x = self.at(k, f['value'])
            if is_mark(x):
                continue
            kk = self.map(f['key'], given=k)
            if is_mark(kk):
                continue
            out[kk] = x
        return out

    def parse_group(self, f, v):
        out, any_match = [], False
        for k in self.mapping():
            for key, g in f['fields']:
                m = None
                if key[0] == 'p':
                    m = re.match(key[1], k)
                    if m is None:
                        continue
                elif key[1] != k:
                    continue
                any_match = True
                g = dict(g)
                g.pop('src', None)
                x = self.at(k, g)
                if not is_mark(x):
                    out.append((k, None if m is None else ('match', key[1], m.group(0), m.groups()), x))
                break
        return out if any_match else NONE

    # ------------------------------------------------------------ forms
    def parse_sub(self, f, v):
        form = FormM(f['form'])
        n = len(self.errors)
        self.map_form(form, None, f.get('unmapped', 'ignore'))
        return form if len(self.errors) == n else ERROR

    def parse_poly(self, f, v):
        spec = self.dispatch(f, v)
        if is_mark(spec):
            return spec
        form = FormM(spec)
        n = len(self.errors)
        self.map_form(form, None, f.get('unmapped', 'ignore'))
        return form if len(self.errors) == n else ERROR

    def dispatch(self, f, v):
        """The form class whose type field claims the identity read from v."""
        fields = all_fields(f['base'])
        upto = [n for n, g in fields].index(f['type_name'])
        if not isinstance(v, (dict, list, tuple)):
            raise Reject()
        probe = {'name': 'probe', 'fields': [[n, g] for n, g in fields[:upto + 1]]}
        m = Model('native', v, aliases=dict((n, i) for i, (n, g) in enumerate(probe['fields'])) if not isinstance(v, dict) else None,
                  ignore_default=self.ignore_default, ignore_missing=self.ignore_missing)
        m.log = self.log
        form = FormM(probe)
        try:
            m.map_form(form, None, 'ignore')
        except Reject:
            raise
        if m.errors or f['type_name'] not in form:
            raise Reject()
        ident = form[f['type_name']]
        if ident is None:
            return NONE
        found = None
        for spec in [f['base']] + f['forms']:
            t = dict(all_fields(spec))[f['type_name']]
            if ident in (t['choices_'] or []):
                found = spec
        if found is None:
            raise Reject()
        return found

    def map_form(self, form, tags, unmapped):
        """Map every selected field of the form at the current keys."""
        self.mapping()
        self.forms.append((form, list(self.keys), self.errors))
        try:
            for n, f in all_fields(form.spec):
                if tags and not set(tags) & set(f.get('tags', [])):
                    continue
                v = self.map(f, n)
                if not is_mark(v):
                    form[n] = v
        finally:
            self.forms.pop()
        if unmapped and unmapped != 'ignore':
            g = {'k': 'field', 'id': None} if unmapped == 'capture' else unmapped
            got = {}
            for k in self.mapping():
                if k in form:
                    continue
                x = self.at(k, g)
                if not is_mark(x):
                    got[k] = x
            form.update(got)

    # ------------------------------------------------------------ validation
    def bounds(self, f, lo_name, hi_name, pair, calls):
        lo, hi = dec(f.get(lo_name)), dec(f.get(hi_name))
        p = f.get(pair)
        if p is not None:
            p = dec(p)
            if pair == 'length' and not p:
                pass
            elif isinstance(p, (list, tuple)):
                lo, hi = p
            else:
                lo = hi = p
        for m, a in f.get('calls', []):
            a = [dec(x) for x in a]
            if m == calls[0]:
                lo = a[0]
            elif m == calls[1]:
                hi = a[0]
            elif m == calls[2]:
                lo, hi = a
        return lo, hi

    def valid(self, f, v):
        if v is None:
            null = f.get('nullable', True)
            if f.get('default') and f['default'][0] == 'none':
                null = True
            return bool(f.get('nullable_after', null))
        k = f['k']
        if k in ('string', 'type'):
            choices = f.get('choices') if k == 'string' else f['choices_']
            lo, hi = self.bounds(f, 'min_length', 'max_length', 'length', ('', '', ''))
            if lo is not None and len(v) < lo or hi is not None and len(v) > hi:
                return False
            if f.get('pattern') and not re.match(f['pattern'], v):
                return False
            if f.get('alphabet') and any(c not in f['alphabet'] for c in v):
                return False
            if choices and v not in dec(choices) and v not in [dec(b) for a, b in f.get('translate', []) or []]:
                return False
        elif k in ('integer', 'float', 'decimal'):
            lo, hi = self.bounds(f, 'min_value', 'max_value', 'range', ('min', 'max', 'range'))
            if lo is not None and v < lo or hi is not None and v > hi:
                return False
        elif k in ('date', 'time', 'datetime'):
            lo, hi = self.bounds(f, 'after', 'before', '', ('after', 'before', 'between'))
            if lo is not None and v < lo or hi is not None and v > hi:
                return False
        elif k == 'list':
            lo, hi = self.bounds(f, 'min_length', 'max_length', 'length', ('min', 'max', 'range'))
            if lo is not None and len(v) < lo or hi is not None and len(v) > hi:
                return False
        elif k == 'dict':
            if any(x not in v for x in dec(f.get('required_keys', []))):
                return False
            if f.get('max_keys') and len(v) > f['max_keys']:
                return False
        return True


# ---------------------------------------------------------------- comparison
def agree(real, model):
    if isinstance(model, FormM):
        if type(real).__name__ != model.spec['name'] or not isinstance(real, pilo.Form):
            return False
        return set(real) == set(model) and all(agree(real[k], model[k]) for k in model)
    if isinstance(model, tuple) and len(model) == 3 and isinstance(model[1], tuple) and model[1][:1] == ('match',):
        if not (isinstance(real, tuple) and len(real) == 3 and real[0] == model[0] and agree(real[2], model[2])):
            return False
        m = real[1]
        return m is not None and m.re.pattern == model[1][1] and m.group(0) == model[1][2] and m.groups() == model[1][3]
    if is_mark(model) or is_mark(real):
        return real is model
    if type(real) is not type(model):
        return False
    if isinstance(model, (list, tuple)) and not isinstance(model, time.struct_time):
        return len(real) == len(model) and all(agree(a, b) for a, b in zip(real, model))
    if isinstance(model, dict):
        return list(real) == list(model) and all(agree(real[k], model[k]) for k in model)
    if isinstance(model, decimal.Decimal):
        return repr(real) == repr(model)
    if isinstance(model, float):
        return real == model or (real != real and model != model)
    return real == model


def same_errors(real, model, what):
    got = [(type(e).__name__, getattr(e.field, '_sid', None), str(e).split(' - ')[0]) for e in real]
    need(got == model, '%s: errors are %r, expected %r', what, got, model)
    for e, m in zip(real, model):
        if m[0] == 'Missing':
            need(str(e) == m[2] + ' - missing', '%s: message %r', what, str(e))


def source(kind, data, aliases=None):
    if kind == 'native':
        return DefaultSource(data, aliases=aliases)
    return JsonSource(json.dumps(data), strict=kind == 'json-strict')


def snapshot():
    return [dict(f) for f in ctx.stack], where()


def flags(case):
    return ctx(ignore_default=case.get('ignore_default', False), ignore_missing=case.get('ignore_missing', False))


def map_case(case, compare_log=True):
    """Map a form (case: form, kind, data, ...) by the library and by the model, and compare everything observable.

    With `again`, another form of the same class is mapped from the same data, after the made values of the first were changed.
    """
    log = []
    b = Built(log)
    cls = b.form(case['form'])
    out = map_once(case, compare_log, b, cls, log)
    if case.get('again') and out is not None:
        for n, f in all_fields(case['form']):
            if (f.get('default') or [None])[0] in ('callable', 'object', 'class') and isinstance(out[0].get(n), list):
                out[0][n].append('changed')
        del log[:]
        out = map_once(case, compare_log, b, cls, log)
    return out


def map_once(case, compare_log, b, cls, log):
    data = dec(case['data'])
    kind = case['kind']
    aliases = None
    if not isinstance(data, dict) and kind == 'native':
        aliases = dict((n, i) for i, (n, f) in enumerate(all_fields(case['form'])))
    m = Model(kind, data, case.get('ignore_default', False), case.get('ignore_missing', False), aliases)
    fm = FormM(case['form'])
    form = b.root = cls()
    for k, v in case.get('stored', []):
        dict.__setitem__(form, k, dec(v))
        fm[k] = dec(v)
    tags = case.get('tags')
    unmapped = case.get('unmapped', 'ignore')
    if case.get('reset'):
        for n, f in all_fields(case['form']):
            if not tags or set(tags) & set(f.get('tags', [])):
                fm.pop(n, None)
    exc = None
    try:
        m.map_form(fm, tags, unmapped)
    except Stop as e:
        exc = e.kind
    except Reject:
        exc = 'SourceError'
    except Skip:
        return
    real_unmapped = b.field(unmapped) if isinstance(unmapped, dict) else unmapped
    kw = {'reset': bool(case.get('reset')), 'unmapped': real_unmapped, 'error': case.get('error', 'collect')}
    inside = {}
    if tags:
        given = list(tags) if case.get('tags_as', 'list') == 'list' else set(tags)
        if case.get('tags_in') == 'context':
            inside['tags'] = given
        else:
            kw['tags'] = given
            if case.get('tags_in') == 'over':
                inside['tags'] = ['w', 'x']
    src = source(kind, data, aliases)
    if case.get('union'):
        src = UnionSource([src, {'zz': 1}], merge='first')
    before = snapshot()
    with flags(case), ctx(**inside):
        got, e = run(form.map, src, **kw)
    need(snapshot() == before, 'the context is not restored')
    need(repr(data) == repr(dec(case['data'])) or data == dec(case['data']), 'the source was changed')
    what = 'mapping'
    if exc:
        if case.get('error') == 'raise' and m.errors:
            return
        need(e is not None and type(e).__name__ == exc, 'mapping ended with %r, expected %s', e if e is not None else got, exc)
    elif case.get('error') == 'raise':
        if m.errors:
            need(isinstance(e, pf.FormError), 'mapping with errors %r ended with %r instead of a FormError', m.errors, e or got)
            need(e.field_errors and all(isinstance(x, pf.FieldError) for x in e.field_errors), 'the FormError carries no field errors')
            return
        need(e is None and got is form, 'mapping ended with %r', e if e is not None else got)
    else:
        need(e is None, 'mapping raised %s: %s', type(e).__name__, e)
        need(isinstance(got, list), 'mapping returned %r', got)
        same_errors(got, m.errors, what)
    need(set(form) == set(fm), 'the form holds %s, expected %s', sorted(map(str, form)), sorted(map(str, fm)))
    for k in fm:
        need(agree(form[k], fm[k]), 'the form holds %r under %r, expected %r', form[k], k, fm[k])
    if compare_log:
        need(log == m.log, 'hooks ran as %r, expected %r', log, m.log)
    return form, fm, m
