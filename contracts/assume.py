"""Assumptions every proof rests on (reported in each evidence file)."""
GENERAL = [
    'Python integers are mathematical integers; floats are IEEE double terms compared by the solver',
    'builtin and stdlib functions behave as modelled in pyvc/builtins.py (str/list/dict/set methods, copy, inspect, '
    'datetime and decimal comparison, re matching are uninterpreted where not modelled)',
    'opaque client values (field values, hook results) have a truth value, a symmetric equality and an ordering that do not change and do '
    'not raise',
    'generators are executed eagerly up to their consumer (no interleaving with the consumer\'s effects except for '
    'contextmanager generators, which are inlined around the with body)',
    'no other thread touches the objects (Context is thread-local by construction)',
    'memory and recursion depth are unlimited',
]
