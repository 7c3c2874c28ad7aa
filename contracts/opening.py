"""Opening a value as a sequence or a mapping: what a container field iterates over."""
from .common import *          # noqa: F401,F403

KINDS = ('none', 'absent', 'bool', 'int', 'flt', 'str', 'object', 'list', 'tuple', 'dict')


class Opening(Harness):
    """Native and JSON sources: a list or tuple is a sequence of its length, a dict a mapping of its keys, and a native sequence at the
    root a mapping of its aliases; None, numbers and other objects are neither (a SourceError)."""
    covers = ('sequence', 'mapping', 'neither')

    def __init__(self, src, depth, aliases=False):
        self.src, self.depth, self.aliases = src, depth, aliases
        self.name = 'opening-%s-%d%s' % (src, depth, '-aliases' if aliases else '')
        m = 'pilo.source.%s' % {'native': 'default.Default', 'json': 'json.Json'}[src]
        if aliases and not depth:
            self.covers = ('sequence', 'neither')
        self.functions = (m + 'Source.sequence', m + 'Source.mapping', m + 'Source.path', m + 'Path.__init__', 'pilo.source.Path.__init__',
                          'pilo.source.Path.sequence', 'pilo.source.Path.mapping')

    def value(self, it, kind):
        sort = {'bool': BOOL, 'int': INT, 'flt': FLT, 'str': STR}.get(kind)
        if sort is not None:
            return Sym(z3.Const('value', sort))
        if kind in ('list', 'tuple'):
            self.items = z3.Const('items', SEQ)
            if kind == 'list':
                return it.new_list([('s', self.items, None)], 'items')
            return tuple(Sym(z3.Const('item%d' % i, INT)) for i in range(it.choose(3)))
        if kind == 'dict':
            self.keys = z3.Const('keys', SEQ)
            d = it.new_dict(label='value')
            d.data = DictData(dom=z3.Const('dom', SETS), val=z3.Const('val', MAPS), keyseq=self.keys)
            return d
        return {'none': None, 'absent': None, 'object': it.new(host_class(it, 'Thing', None, {}), 'thing')}[kind]

    def run(self, it):
        kinds = [k for k in KINDS if self.depth or k != 'absent']
        kind = kinds[it.choose(len(kinds))]
        v = self.value(it, kind)
        native = self.src == 'native'
        cls = member(it, 'pilo.source.default' if native else 'pilo.source.json', 'DefaultSource' if native else 'JsonSource')
        data = v if not self.depth else it.new_dict({'k': v} if kind != 'absent' else {})
        alias = it.new_dict({'x': 0, 'y': 1}) if self.aliases else None
        if native:
            src = it.instantiate(cls, [data], {'aliases': alias})
        else:
            src = it.new(cls)
            src.attrs.update({'strict': False, 'location': None, 'text': None, 'data': data})
        p = it.call(it.getattr(src, 'path'), [])
        if self.depth:
            it.call(it.getattr(p, 'append'), ['k'])
        SE = member(it, 'pilo.source', 'SourceError')
        r = attempt(it, lambda: it.call(it.getattr(p, 'sequence'), []))
        if kind in ('list', 'tuple'):
            it.cover('sequence')
            it.prove('a list or tuple is a sequence', r.ok)
            if r.ok:
                it.prove('of its length', it.int_term(r.value) == (z3.Length(self.items) if kind == 'list' else len(v)))
        elif not (native and kind == 'str'):
            it.cover('neither')
            it.prove('anything else is not a sequence: a SourceError', not r.ok and it.exc_matches(r.exc, SE) is True, info='%s' % kind)
        aliased = self.aliases and not self.depth
        r = attempt(it, lambda: it.call(it.B['list'], [it.call(it.getattr(p, 'mapping'), [])]))
        if kind == 'dict' and aliased:
            return
        if kind == 'dict':
            it.cover('mapping')
            it.prove('a dict is a mapping', r.ok)
            if r.ok:
                it.prove('of its keys', self.all_of(it, r.value) == self.keys)
        elif aliased and (kind in ('list', 'tuple') or native and kind == 'str'):
            if kind != 'str':
                it.prove('an aliased sequence is a mapping', r.ok)
                if r.ok:
                    it.prove('of its aliases', self.all_of(it, r.value) == z3.Concat(z3.Unit(V.str(z3.StringVal('x'))), z3.Unit(V.str(z3.StringVal('y')))))
        else:
            it.prove('anything else is not a mapping: a SourceError', not r.ok and it.exc_matches(r.exc, SE) is True, info='%s' % kind)

    def all_of(self, it, keys):
        return it.list_term(keys)


OPENING = [Opening('native', 0), Opening('native', 1), Opening('native', 0, True), Opening('native', 1, True), Opening('json', 0), Opening('json', 1)]
