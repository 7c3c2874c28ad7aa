"""C21 on the real code."""
from model import map_case
from gens import G

RULE = 'group fields with 1-4 string, bare and pattern entries (overlapping), element fields that drop values, over documents with 0-7 ' \
       'keys; non-trivial: distinct (group, document)'


def cases(rng):
    g = G(rng)
    fields = [['g', g.group()]]
    if g.p(.3):
        fields.insert(rng.randint(0, 1), ['a', g.element(0)])
    form = g.form(fields)
    if g.p(.3):
        form = g.form([['s', g.base('sub', form=form)]])
    return g.case(form)


FIXED = []


def check(case):
    map_case(case)
