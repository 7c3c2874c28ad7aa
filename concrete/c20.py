import cfgs
RULE = 'random configurations, defaults and key paths against an independent reading of the text; non-trivial: distinct case'
FIXED = []


def cases(rng):
    c = cfgs.gen_config(rng)
    c['paths'] = cfgs.paths(rng, c)
    return c


def check(case):
    o = cfgs.Oracle(case)
    src = cfgs.source(case)
    cfgs.agree(o, src.path(), [])
    for keys in case['paths']:
        p = src.path()
        for k in keys:
            p.append(k)
        cfgs.agree(o, p, keys)
        at = list(keys)
        while at:
            p.pop()
            at.pop()
            cfgs.agree(o, p, at, 'on the way back')
