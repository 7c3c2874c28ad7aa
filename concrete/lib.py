"""Helpers of the concrete contract checks (run on the real code, under the repository's interpreter)."""


class Bad(Exception):
    pass


def bad(msg, *a):
    import lib
    raise lib.Bad(msg % a if a else msg)


def need(cond, msg, *a):
    if not cond:
        bad(msg, *a)


def same(a, b, msg, *args):
    """Exact agreement: same type and value (NaN agrees with NaN)."""
    if not eq(a, b):
        bad('%s: got %r, expected %r' % (msg % args if args else msg, a, b))


def eq(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    try:
        return bool(a == b)
    except Exception:
        return False


def run(f, *a, **k):
    """(value, None) or (None, exception)."""
    try:
        return f(*a, **k), None
    except Exception as e:
        if type(e).__name__ in ('Slow', 'Bad'):
            raise
        return None, e
