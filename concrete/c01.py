import ctxmodel
RULE = 'random programs of nested scopes (keys, indexes, sources, bindings, reset; bodies that raise) against a model; ' \
       'non-trivial: distinct program'
FIXED = [[{'op': 'scope', 'kind': k, 'key': 'a', 'idx': 0, 'binds': {'color': 1}, 'mark': 1, 'call': c, 'exit': e, 'body': [
    {'op': 'scope', 'kind': k2, 'key': 'b', 'idx': 1, 'binds': {'color': None, 'shape': 2}, 'mark': 2, 'call': True, 'exit': e2,
     'body': [{'op': 'look'}]}, {'op': 'look'}]}]
    for k in ('key', 'idx', 'src', 'var', 'again', 'reset') for k2 in ('key', 'src', 'var', 'again') for c in (True, False)
    for e in ('ok', 'boom', 'stop') for e2 in ('ok', 'boom')]


def cases(rng):
    return ctxmodel.gen(rng, rng.randint(1, 5), False)


check = ctxmodel.check
