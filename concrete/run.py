"""Executes the contract of one property on the real code: `run.py c01 --budget S --seed N --out F`.

A property module has RULE (how cases are made), cases(rng, size) -> a JSON case, FIXED -> list of cases that always run, and
check(case) which raises Bad(message) when the real code breaks the contract on the case.
"""
import argparse
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))


class Bad(Exception):
    pass


class Slow(Exception):
    pass


def alarm(*a):
    raise Slow('the call does not return')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('module')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--budget', type=float, default=10)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--out', required=True)
    ap.add_argument('--shard', type=int, default=0)
    ap.add_argument('--shards', type=int, default=1)
    ap.add_argument('--case')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    sys.dont_write_bytecode = True
    sys.path.insert(0, a.repo)
    sys.path.insert(0, HERE)
    import lib
    lib.Bad = Bad
    res = {'cases': 0, 'distinct': 0, 'hits': [], 'errors': [], 'samples': [], 'rule': ''}
    try:
        m = importlib.import_module(a.module)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = any('/pilo/' in f.filename for f in tb)
        msg = '%s: %s' % (type(e).__name__, e)
        if inside:
            # the tree cannot even be imported the way the contract uses it
            res['hits'].append({'case': {'import': True}, 'message': 'importing pilo fails: ' + msg, 'key': 'import'})
        res['errors'].append('import: ' + msg)
        json.dump(res, open(a.out, 'w'))
        return
    res['rule'] = m.RULE
    signal.signal(signal.SIGALRM, alarm)
    seen = set()
    end = time.time() + a.budget

    def one(case):
        res['cases'] += 1
        key = json.dumps(case, sort_keys=True)
        if key not in seen:
            seen.add(key)
            res['distinct'] += 1
        if len(res['samples']) < 3 and res['cases'] % 7 == 3:
            res['samples'].append(case)
        signal.alarm(10)
        try:
            m.check(case)
        except Bad as e:
            return str(e)
        except Slow as e:
            return str(e)
        except Exception as e:
            # the oracle runs pilo inside expected-exception guards, so anything else escaped from the code
            tb = traceback.extract_tb(e.__traceback__)
            if any(f.filename.startswith(os.path.join(a.repo, 'pilo')) for f in tb):
                return 'unexpected %s: %s (%s)' % (type(e).__name__, e, tb[-1])
            res['errors'].append('%s: %s at %s on %s' % (type(e).__name__, e, tb[-1], key[:300]))
            if a.v:
                traceback.print_exc()
        finally:
            signal.alarm(0)
        return None

    def hit(case, msg):
        if len(res['hits']) < 20:
            res['hits'].append({'case': case, 'message': msg, 'key': getattr(m, 'key', lambda c, x: x)(case, msg)})

    if a.case:
        msg = one(json.loads(a.case))
        if msg:
            hit(json.loads(a.case), msg)
    else:
        for i, case in enumerate(m.FIXED):
            if i % a.shards == a.shard:
                msg = one(case)
                if msg:
                    hit(case, msg)
        n = a.shard
        while time.time() < end and len(res['hits']) < 5 and len(res['errors']) < 20:
            rng = random.Random(a.seed * 1000003 + n)
            n += a.shards
            case = m.cases(rng)
            msg = one(case)
            if msg:
                hit(case, shrink(m, case, msg, one) and msg)
            if getattr(m, 'LIMIT', None) and res['cases'] >= m.LIMIT:
                break
    json.dump(res, open(a.out, 'w'), default=str)
    if a.v:
        print(json.dumps({k: v for k, v in res.items() if k != 'samples'}, indent=1, default=str)[:3000])


def shrink(m, case, msg, one):
    return True


if __name__ == '__main__':
    main()
