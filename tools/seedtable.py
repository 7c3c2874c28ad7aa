"""seedtable.py [ids]: runs each planted change's own check on a scratch copy carrying it: whether the check exits 1 with its
VIOLATION line, and what notices it: which contract (obligation) and/or which concrete case."""
import concurrent.futures
import glob
import json
import os
import re
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(d):
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=repo, check=True)
        out = []
        for args in ([], ['--no-concrete']):
            r = subprocess.run(['python3-vt', os.path.join(HERE, 'check.py'), meta['property'], 'quick', '--repo', repo] + args,
                               cwd=HERE, capture_output=True, text=True)
            lines = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            why = []
            for l in lines:
                m = re.search(r'replay=(\S+)', l)
                try:
                    why.append(str(json.load(open(os.path.join(HERE, m.group(1)))).get('what', l))[:150])
                except Exception:
                    why.append(os.path.basename(m.group(1)) + (' (obligation)' if 'no-failing' in l else ''))
            out.append((r.returncode, why, r.stdout))
        return os.path.basename(d), meta['property'], out
    finally:
        subprocess.run(['rm', '-rf', tmp])


def main():
    ds = sorted(glob.glob(os.path.join(HERE, 'seeded', '*')))
    if sys.argv[1:]:
        ds = [d for d in ds if os.path.basename(d) in sys.argv[1:] or os.path.basename(d)[:3] in sys.argv[1:]]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for name, prop, out in ex.map(one, ds):
            print(name, prop, '| check exit', out[0][0], '|', '; '.join(out[0][1])[:300], '| contracts alone', out[1][0], '|', '; '.join(out[1][1])[:200], flush=True)


main()
