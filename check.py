#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough] [--repo DIR] [--replay FILE]

Decides one property: generates and discharges every obligation of its contracts from the current source
of /repo, and cross-checks the same contract by executing the real code (see DESIGN.md).
"""
import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
PYTHON = '/opt/venv/bin/python'
WORKERS = 8
QUICK_S, THOROUGH_S = 12, 240

STATE = {}


def concrete_cmd(prop, repo, budget, seed, out, shard=0, shards=1, extra=()):
    return [PYTHON, os.path.join(HERE, 'concrete', 'run.py'), prop.lower(), '--repo', repo, '--budget', str(budget),
            '--seed', str(seed), '--out', out, '--shard', str(shard), '--shards', str(shards)] + list(extra)


def concrete_start(prop, repo, budget, seed, tmp, shards, tag):
    env = dict(os.environ, PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'), PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0', TZ='UTC')
    ps = []
    for i in range(shards):
        out = os.path.join(tmp, '%s-%d.json' % (tag, i))
        ps.append((subprocess.Popen(concrete_cmd(prop, repo, budget, seed, out, i, shards), env=env, cwd=tmp,
                                    stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True), out))
    return ps


def concrete_join(ps, budget):
    total = {'cases': 0, 'distinct': 0, 'hits': [], 'errors': [], 'samples': [], 'rule': ''}
    for p, out in ps:
        try:
            _, err = p.communicate(timeout=budget + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
            total['errors'].append('run did not end')
        try:
            r = json.load(open(out))
        except Exception as e:
            total['errors'].append('no result: %s %s' % (e, (err or '')[-400:]))
            continue
        total['cases'] += r['cases']
        total['distinct'] += r['distinct']
        total['hits'] += r['hits']
        total['errors'] += r['errors']
        total['samples'] = total['samples'] or r['samples']
        total['rule'] = r['rule']
    return total


def prove_one(args):
    """Worker: one contract, in one mode."""
    idx, bound, deadline = args
    from pyvc.loader import Engine
    from pyvc.values import Unsupported
    h = STATE['harnesses'][idx]
    t = time.time()
    out = {'name': h.name, 'bound': bound, 'functions': list(h.functions)}
    try:
        it = Engine(STATE['loader'], timeout_ms=h.timeout)
        r = it.explore(h, bound=bound, deadline_s=deadline)
        out.update({
            'obligations': [(n, s) for n, s, d in r.obligations],
            'failed': [(n, s, d) for n, s, d in r.obligations if s != 'proved'][:6],
            'unsupported': [str(u)[:300] for u in r.unsupported], 'paths': r.paths, 'cut': r.cut,
            'covers': r.covers, 'truncated': r.truncated, 'backends': r.backends, 'solver_s': r.solver_s,
            'queries': r.queries, 'rounds': r.rounds, 'loops': r.sites,
            'inlined': sorted(r.inlined), 'contracts_used': sorted(r.contracts_used)})
        missing = [c for c in h.covers if c not in r.covers]
        out['missing_covers'] = missing
        st = [s for n, s in out['obligations']]
        if 'refuted' in st and (bound is not None or r.sites == 0):
            out['verdict'] = 'refuted'
        elif r.unsupported or 'unknown' in st or 'refuted' in st:
            out['verdict'] = 'undecided'
        elif missing:
            out['verdict'] = 'vacuous'
        elif bound is not None or h.bounded:
            out['verdict'] = 'bounded'
        else:
            out['verdict'] = 'proved' if not r.truncated else 'bounded'
    except (Unsupported, Exception) as e:
        out.update({'verdict': 'undecided', 'obligations': [], 'failed': [], 'unsupported': [
            '%s: %s' % (type(e).__name__, str(e)[:300])], 'covers': {}, 'truncated': True, 'backends': {}, 'solver_s': 0.0,
            'queries': 0, 'paths': 0, 'cut': 0, 'rounds': 0, 'loops': 0, 'inlined': [], 'contracts_used': [],
            'missing_covers': list(h.covers), 'trace': traceback.format_exc()[-800:]})
    out['wall_s'] = time.time() - t
    return idx, out


def run_pool(tasks, until):
    """Run prove tasks in forked workers; a task that outlives its deadline is undecided."""
    res = {}
    if not tasks:
        return res
    ex = cf.ProcessPoolExecutor(WORKERS, mp_context=mp.get_context('fork'))
    futs = {ex.submit(prove_one, t): t for t in tasks}
    try:
        for f in cf.as_completed(futs, timeout=max(1, until - time.time())):
            try:
                idx, out = f.result()
                res[idx] = out
            except Exception as e:
                t = futs[f]
                res[t[0]] = lost(t, '%s: %s' % (type(e).__name__, e))
    except cf.TimeoutError:
        pass
    for p in list((ex._processes or {}).values()):
        p.kill()
    ex.shutdown(wait=False, cancel_futures=True)
    for t in tasks:
        if t[0] not in res:
            res[t[0]] = lost(t, 'time limit')
    return res


def lost(t, why):
    h = STATE['harnesses'][t[0]]
    return {'name': h.name, 'bound': t[1], 'functions': list(h.functions), 'verdict': 'undecided', 'obligations': [],
            'failed': [], 'unsupported': [why], 'covers': {}, 'missing_covers': list(h.covers), 'truncated': True,
            'backends': {}, 'solver_s': 0.0, 'queries': 0, 'paths': 0, 'cut': 0, 'rounds': 0, 'loops': 0,
            'inlined': [], 'contracts_used': [], 'wall_s': 0.0}


def load_known(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('{'):
                r = json.loads(ln)
                if r.get('property') == prop and r.get('status') == 'known':
                    out.append(r)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--replay')
    ap.add_argument('--only', default='')
    ap.add_argument('--no-concrete', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = a.property.upper()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='pilo-check-')
    try:
        return decide(a, prop, seed, t0, tmp)
    finally:
        subprocess.run(['rm', '-rf', tmp])


def decide(a, prop, seed, t0, tmp):
    if a.replay:
        r = json.load(open(a.replay))
        if 'case' not in r:
            print('no failing input was found; the failed obligation is:')
            print(json.dumps(r, indent=1)[:6000])
            return 0
        out = os.path.join(tmp, 'r.json')
        subprocess.run(concrete_cmd(prop, a.repo, 60, seed, out, extra=['--case', json.dumps(r['case'])]), cwd=tmp,
                       env=dict(os.environ, PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'), PYTHONHASHSEED='0'))
        hits = json.load(open(out))['hits']
        print(json.dumps(hits, indent=1) if hits else 'the case passes')
        return 1 if hits else 0

    quick = a.tier == 'quick'
    budget = QUICK_S if quick else THOROUGH_S
    until = t0 + (420 if quick else 840)
    has_concrete = os.path.exists(os.path.join(HERE, 'concrete', prop.lower() + '.py')) and not a.no_concrete
    ps = concrete_start(prop, a.repo, budget, seed, tmp, 2 if quick else 4, 'c') if has_concrete else []

    # ---- the deductive part
    load_error = None
    harnesses, results = [], {}
    try:
        from pyvc.loader import Loader, Engine
        m = importlib.import_module('contracts.' + prop.lower())
        harnesses = [h for h in m.HARNESSES if a.only in h.name and (not quick or not getattr(h, 'thorough', False))]
        # bounded stand-ins that are looked at only where a contract without bound is not proved
        fallback = [h for h in getattr(m, 'FALLBACK', []) if a.only in h.name]
        first = len(harnesses)
        harnesses = harnesses + fallback
        STATE['harnesses'] = harnesses
        loader = Loader(a.repo)
        Engine(loader)
        STATE['loader'] = loader
    except Exception as e:
        load_error = '%s: %s' % (type(e).__name__, str(e)[:500])
        if a.v:
            traceback.print_exc()
    retried = {}
    if load_error is None:
        scale = 1 if quick else 4
        tasks = [(i, None, h.deadline * scale) for i, h in enumerate(harnesses[:first])]
        results = run_pool(tasks, min(until, t0 + 300 * (1 if quick else 2)))
        redo = [i for i in sorted(results) if results[i]['verdict'] not in ('proved', 'bounded')]
        more = [(i, harnesses[i].bound, harnesses[i].deadline) for i in redo]
        n_more = len(more)
        if redo:
            more += [(i, None, harnesses[i].deadline) for i in range(first, len(harnesses))]
        retried = run_pool(more, min(until, time.time() + 150))
        for t in more[n_more:]:
            results[t[0]] = retried.pop(t[0])
        if not quick:
            deeper = [(i, harnesses[i].bound + 1, harnesses[i].deadline) for i in redo
                      if retried[i]['verdict'] == 'bounded']
            for i, r in run_pool(deeper, min(until, time.time() + 200)).items():
                if r['verdict'] in ('refuted', 'bounded'):
                    retried[i] = r
    conc = concrete_join(ps, budget)

    # ---- verdict
    refuted = []
    for i in sorted(results):
        for r in (results[i], retried.get(i)):
            if r and r['verdict'] == 'refuted':
                refuted.append(r)
                break
    known = load_known(prop)
    if refuted and not conc['hits'] and has_concrete:
        # look harder for an input that shows it on the real code
        ps = concrete_start(prop, a.repo, 45, seed + 1000, tmp, WORKERS, 'x')
        more = concrete_join(ps, 45)
        for k in ('cases', 'distinct'):
            conc[k] += more[k]
        conc['hits'] += more['hits']
    fresh_hits, known_hits = [], {}
    for h in conc['hits']:
        for kf in known:
            if kf.get('match') and kf['match'] in h['key']:
                known_hits.setdefault(kf['match'], kf)
                break
        else:
            fresh_hits.append(h)
    for kf in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    violation = None
    rep = os.path.join(evidence_dir(a), 'replay-%s.json' % prop)
    if fresh_hits:
        h = fresh_hits[0]
        violation = {'property': prop, 'case': h['case'], 'message': h['message'], 'key': h['key'],
                     'failed_obligations': [dict(contract=r['name'], obligation=n, status=s)
                                            for r in refuted for n, s, d in r['failed']],
                     'how': 'python3-vt check.py %s --replay %s' % (prop, os.path.relpath(rep, HERE))}
        tail = ''
    elif refuted:
        r = refuted[0]
        violation = {'property': prop, 'contract': r['name'], 'functions': r['functions'],
                     'failed_obligations': [dict(contract=x['name'], obligation=n, status=s, verifier=d)
                                            for x in refuted for n, s, d in x['failed']][:12]}
        tail = ' no-failing-input-found'
    if violation:
        with open(rep, 'w') as f:
            json.dump(violation, f, indent=1, default=str)
        names = sorted({'%s: %s' % (r['name'], n) for r in refuted for n, s, d in r['failed']})
        for n in names[:8]:
            print('failed obligation: %s' % n)
        if fresh_hits:
            print('failing input: %s' % fresh_hits[0]['message'][:1500])
        print('VIOLATION property=%s replay=%s%s' % (prop, os.path.relpath(rep, HERE), tail))

    # ---- evidence
    write_evidence(a, prop, seed, t0, harnesses, results, retried, conc, violation, load_error)
    summary = {}
    for i in results:
        v = results[i]['verdict']
        if v not in ('proved', 'bounded') and i in retried:
            v = v + '->' + retried[i]['verdict']
        summary[v] = summary.get(v, 0) + 1
    print('%s %s: contracts %s; concrete cases %d%s; %.1fs' % (
        prop, a.tier, summary or load_error, conc['cases'], ' ERRORS %s' % conc['errors'][:2] if conc['errors'] else '',
        time.time() - t0))
    if a.v:
        for i in sorted(results):
            for r in (results[i], retried.get(i)):
                if r and r['verdict'] not in ('proved', 'bounded'):
                    print('  ', r['name'], 'bound=%s' % r['bound'], r['verdict'], r['unsupported'], r['missing_covers'],
                          [(n, s) for n, s, d in r['failed']])
                    if r.get('trace'):
                        print(r['trace'])
            print('  ', results[i]['name'], results[i]['verdict'], '%.1fs' % results[i]['wall_s'])
    if violation:
        return 1
    if load_error and not conc['cases'] or conc['errors'] and not conc['cases'] and has_concrete and not results:
        print('no answer: %s %s' % (load_error, conc['errors'][:2]))
        return 2
    return 0


def evidence_dir(a):
    """Where evidence goes: a development run on a copy does not write over that of the repository."""
    d = os.path.join(HERE, 'evidence', *([] if os.path.realpath(a.repo) == '/repo' else ['copies']))
    os.makedirs(d, exist_ok=True)
    return d


def write_evidence(a, prop, seed, t0, harnesses, results, retried, conc, violation, load_error):
    from contracts.assume import GENERAL
    total = disch = 0
    backends, solver_s, queries = {}, 0.0, 0
    under, inlined, used = set(), set(), set()
    per = []
    und = []
    b_obl = 0
    for i in sorted(results):
        r = results[i]
        n = len(r['obligations'])
        d = sum(1 for _, s in r['obligations'] if s == 'proved')
        if r['verdict'] == 'proved':
            total += n
            disch += d
            under.update(r['functions'])
        elif r['verdict'] == 'bounded':
            b_obl += d
        else:
            rr = retried.get(i, r)
            if rr['verdict'] == 'bounded':
                b_obl += sum(1 for _, s in rr['obligations'] if s == 'proved')
            total += max(n, 1)
            disch += d if n else 0
            und.append({'contract': r['name'], 'unbounded': r['verdict'], 'why': r['unsupported'][:2] or r['missing_covers'],
                        'bounded': rr['verdict'], 'bound': rr['bound']})
        for k, v in r['backends'].items():
            backends[k] = backends.get(k, 0) + v
        solver_s += r['solver_s']
        queries += r['queries']
        inlined.update(r['inlined'])
        used.update(r['contracts_used'])
        per.append({'contract': r['name'], 'functions': r['functions'], 'verdict': r['verdict'], 'obligations': n,
                    'discharged': d, 'paths': r['paths'], 'cut_paths': r['cut'], 'loops_cut': r['loops'],
                    'rounds': r['rounds'], 'solver_s': round(r['solver_s'], 2), 'wall_s': round(r['wall_s'], 2)})
    m = sys.modules.get('contracts.' + prop.lower())
    assumptions = list(GENERAL) + list(getattr(m, 'ASSUMPTIONS', []))
    ev = {
        'property': prop, 'tier': a.tier, 'seed': seed, 'level': getattr(m, 'LEVEL', 'proof'),
        'coverage': {
            'obligations': total, 'discharged': disch,
            'checker_cmd': 'python3-vt check.py %s %s' % (prop, a.tier),
            'trusted_base': ['pyvc (this verifier: /verif/pyvc)', 'z3 4.x (python bindings), cvc5 1.1.2 as fallback',
                             'contracts/*.py: the specifications themselves',
                             'models of builtins and of the stdlib in pyvc/builtins.py'],
            'backends': backends, 'solver_s': round(solver_s, 2), 'queries': queries,
            'functions_under_contract': sorted(under), 'functions_inlined': sorted(inlined),
            'callee_contracts_used': sorted(used), 'bounded_obligations': b_obl, 'undecided': und,
            'contracts': per, 'load_error': load_error,
            'evaluations': conc['cases'], 'distinct_nontrivial': conc['distinct'], 'rule': conc['rule'],
            'samples': conc['samples'][:3], 'concrete_errors': conc['errors'][:3],
        },
        'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0,
    }
    with open(os.path.join(evidence_dir(a), prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)          # (no waiting for killed workers)
