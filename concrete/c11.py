"""C11 on the real code."""
from model import map_case
from gens import G

RULE = 'list, tuple and dict fields nested up to three deep (sub forms inside), element and key fields with defaults, hooks and filters, ' \
       'over fitting and unfitting documents; non-trivial: distinct (field, document)'


def cases(rng):
    g = G(rng)
    form = g.form([[n, g.container(rng.randint(0, 2))] for n in ('a', 'b')[:rng.randint(1, 2)]])
    return g.case(form)


FIXED = []


def check(case):
    map_case(case)
