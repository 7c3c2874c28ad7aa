"""Validation of a field's value: accepted exactly when the statement's predicate holds."""
from .fieldlib import *          # noqa: F401,F403


class Validation(Harness):
    """A value is mapped through a field with built-in constraints.

    `build(it, w)` makes the field with unknown constraints, `accepts(it, w, f, v)` is the statement's predicate over the
    value (asked only for a value that is not None).
    """
    functions = (FIELDS + 'Field._map', FIELDS + 'Field.map', FIELDS + 'Errors.invalid', FIELDS + 'Field._validate')
    covers = ('accepted', 'rejected', 'null')
    deadline = 200
    key = z3.Const('src', STR)

    def build(self, it, w):
        raise NotImplementedError

    def value(self, it, w, f):
        """The value under test: a term, given to the field as its explicit value."""
        raise NotImplementedError

    def accepts(self, it, w, f, v):
        raise NotImplementedError

    def translated(self, it, w, f, v):
        return v

    def run(self, it):
        w = World(it)
        f = self.build(it, w)
        w.attach(f)
        it.set_attr_raw(f, 'src', Sym(self.key))
        nullable = [w.NONE, True, False][it.choose(3)]
        it.set_attr_raw(f, 'nullable', nullable)
        null = it.choose(2) == 1
        v = None if null else self.value(it, w, f)
        keys = w.p0
        r = attempt(it, lambda: it.call(it.getattr(f, 'map'), [v]))
        it.prove('mapping does not raise', r.ok)
        if not r.ok:
            return
        w.restored()
        if null:
            ok, out = nullable is not False, None
        else:
            out = self.translated(it, w, f, v)
            ok = self.accepts(it, w, f, out)
        if not isinstance(ok, bool):
            ok = it.branch(ok)
        new = w.new_errors()
        it.prove('earlier errors are kept', new is not None)
        if new is None:
            return
        if null:
            it.cover('null')
        elif ok:
            it.cover('accepted')
        else:
            it.cover('rejected')
        if ok:
            it.prove('an acceptable value is accepted, without error', len(new) == 0)
            it.prove('the value is kept', same(it, r.value, out))
        else:
            it.prove('an unacceptable value yields exactly one error', len(new) == 1)
            it.prove('and no value', w.no_value(r.value))
            if new:
                w.expect_error(new[0], 'Invalid', f, keys)
