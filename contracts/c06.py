"""C06: an absent value takes the default, or is reported missing exactly once."""
from .pipeline import Pipeline

DEFAULTS = ('unset', 'const', 'none', 'optional', 'callable', 'object', 'class', 'hook')
MIDS = ((), ('munge',), ('filter',), ('ignore',), ('munge', 'ignore', 'filter'))
HARNESSES = [Pipeline('default', d, s, m) for d in DEFAULTS for s in ('source', 'compute', 'parse', 'explicit') for m in MIDS] + [
    Pipeline('options', d, 'source', m) for d in ('unset', 'const', 'none', 'optional', 'callable', 'object', 'hook') for m in ((), ('ignore',))]
