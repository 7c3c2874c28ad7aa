"""An element field under its contract (C06/C07): mapping it at a path gives a value or a marker, records some errors after the
earlier ones and leaves the context alone.  What it gives and records is an unknown function of the field, the path's keys and
the explicitly given value."""
from .fieldlib import *          # noqa: F401,F403

MAPPED = fn('mapped', V, SEQ, V, V)
FAULTS = fn('faults', V, SEQ, V, SEQ)


class Elements(object):
    """The class of element fields in the world w."""

    def __init__(self, it, w, kinds=None):
        self.it, self.w = it, w
        self.form = None          # the form whose fields these are

        def map_(it, a, k):
            field = self.ident(a[0])
            if self.form is not None:
                it.prove('a form\'s fields are mapped with that form current', it.getattr(w.ctx, 'form') is self.form)
            value = a[1] if len(a) > 1 else k.get('value', w.NONE)
            keys = self.here()
            if value is w.NONE and isinstance(a[0], Obj):
                src = a[0].attrs.get('src', w.NONE)
                if src is not None and src is not w.NONE:
                    keys = z3.Concat(keys, z3.Unit(it.to_V(src)))          # resolved relative to the current path
            value = it.to_V(value)
            out = MAPPED(field, keys, value)
            self.fail(it.getattr(w.ctx, 'errors'), FAULTS(field, keys, value))
            if kinds is not None:
                it.assume(z3.Or(w.is_marker(out), kinds(out)))
            return it.lift(out)
        self.cls = host_class(it, 'ElementField', [w.fields['Field']], {'map': map_, '_map': map_, '__call__': map_})

    def here(self):
        """The keys of the current path (after its source, when it is not the one the world starts with)."""
        it, w = self.it, self.w
        p = it.getattr(w.ctx, 'src_path')
        if p is w.path:
            return keys_of(it, p)
        return z3.Concat(z3.Unit(it.to_V(p.attrs['src'])), keys_of(it, p))

    def fail(self, errors, faults):
        """The errors `faults` are recorded with the collector."""
        it = self.it
        if errors.cls is self.w.fields['CollectErrors']:
            it.write_data(errors)
            errors.data.chunks.append(('s', faults, self.fault_cls()))
            return
        # a collector that raises is told of the first one, and ends the mapping
        if it.branch(z3.Length(faults) > 0):
            it.call(errors, [it.lift(faults[0], self.fault_cls())])
            it.prove('a raising collector raises', False)

    def fault_cls(self):
        c = self.it.ghost.get('fault_cls')
        if c is None:
            c = self.it.ghost['fault_cls'] = host_class(self.it, 'SomeFault', [self.w.fields['Invalid']], {})
        return c

    def new(self, name):
        o = self.it.instantiate(self.cls, [], {})
        self.it.embedded.add(o.oid)
        o.attrs['ghost_identity'] = o
        return o

    def ident(self, f):
        """Copies of a field map alike."""
        if isinstance(f, Obj):
            f = f.attrs.get('ghost_identity', f)
        return self.it.to_V(f)

    def value(self, field, keys, given=None):
        return MAPPED(self.ident(field), keys, self.w.none if given is None else given)

    def faults(self, field, keys, given=None):
        return FAULTS(self.ident(field), keys, self.w.none if given is None else given)
