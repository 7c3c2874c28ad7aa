import srcs
import cfgs
RULE = 'random documents (native, JSON, config) and random histories of path edits and reads against a lookup from the root; ' \
       'non-trivial: distinct (document, history)'
FIXED = [
    {'kind': 'native', 'doc': {'dict': [['a', {'prim': 1}]], 'ikeys': [], 'cls': ''}, 'aliases': None, 'ignores': [],
     'ops': [['append', 'zz'], ['append', 'b'], ['read', 'value'], ['pop'], ['append', 'c'], ['read', 'value'], ['read', 'exists'],
             ['append', 'd'], ['read', 'exists']]},
    {'kind': 'native', 'doc': {'list': [{'dict': [['b', {'prim': 1}]], 'ikeys': [], 'cls': ''}], 'cls': ''}, 'aliases': [['a', 0]],
     'ignores': [], 'ops': [['append', 'a'], ['append', 'b'], ['read', 'value'], ['pop'], ['read', 'value']]},
]


def cases(rng):
    if rng.random() < .2:
        return cfgs.gen_history(rng)
    return srcs.gen_case(rng)


def check(case):
    return cfgs.play(case) if case['kind'] == 'config' else srcs.play(case)
