import ctxmodel
RULE = 'random programs of nested scopes and rewinds against a model; non-trivial: distinct program'


def _s(kind, mark, body):
    return {'op': 'scope', 'kind': kind, 'key': 'k%d' % mark, 'idx': mark, 'binds': {'color': mark}, 'mark': mark, 'call': True,
            'exit': 'ok', 'body': body}


FIXED = []
for kinds in [(a, b, c) for a in ('key', 'src', 'var') for b in ('key', 'src', 'var') for c in ('key', 'src', 'var', 'idx')]:
    for tgt in range(4):
        for ex in ('ok', 'boom'):
            FIXED.append([_s(kinds[0], 1, [_s(kinds[1], 2, [_s(kinds[2], 3, [
                {'op': 'rewind', 'how': 'depth', 'mark': 0, 'depth': tgt, 'exit': ex,
                 'body': [_s('key', 7, [{'op': 'look'}]), {'op': 'look'}]}, {'op': 'look'}])])])])


def cases(rng):
    return ctxmodel.gen(rng, rng.randint(2, 6), True)


check = ctxmodel.check
