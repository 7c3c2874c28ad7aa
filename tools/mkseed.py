"""mkseed.py FILE: FILE defines SEEDS = [dict(id, property, needs, what, edits=[(file, old, new)], demo)].

Builds each planted change in a scratch copy of /repo, confirms that it compiles, passes the tests, and that its demonstration
passes without and fails with it, and only then writes seeded/<id>/.  With --check, also runs the property's check on the copy.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
DEMO = '#!/bin/bash\n# run with cwd at the repository\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
HEAD = 'import os\nimport sys\nsys.path.insert(0, os.getcwd())\n'


def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)


def tests(cwd):
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'pytest_timeout', '--timeout=300', '-o', 'addopts=', 'tests'], cwd)
    return r.returncode, r.stdout[-1500:]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    seeds = runpy.run_path(args[0])['SEEDS']
    only = args[1:]
    for s in seeds:
        if only and s['id'] not in only:
            continue
        d = os.path.join(HERE, 'seeded', s['id'])
        tmp = tempfile.mkdtemp(prefix='seed-')
        try:
            repo = os.path.join(tmp, 'repo')
            subprocess.run(['cp', '-a', '/repo', repo], check=True)
            dd = os.path.join(tmp, 'demo')
            os.makedirs(dd)
            open(os.path.join(dd, 'demo.py'), 'w').write(HEAD + s['demo'].lstrip('\n'))
            open(os.path.join(dd, 'demo.sh'), 'w').write(DEMO)
            r0 = sh(['bash', os.path.join(dd, 'demo.sh')], repo)
            for f, old, new in s['edits']:
                p = os.path.join(repo, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s['id'], 'EDIT does not match once:', f, t.count(old), repr(old[:60]))
                    break
                open(p, 'w').write(t.replace(old, new))
            else:
                diff = sh(['git', 'diff'], repo).stdout
                rc, out = tests(repo)
                r1 = sh(['bash', os.path.join(dd, 'demo.sh')], repo)
                ok = r0.returncode == 0 and rc == 0 and r1.returncode != 0
                print(s['id'], s['property'], 'OK' if ok else 'NOT KEPT', 'demo before %d tests %d demo after %d' % (
                    r0.returncode, rc, r1.returncode))
                if not ok:
                    print(r0.stderr[-600:], out[-600:] if rc else '', r1.stdout[-200:])
                    continue
                os.makedirs(d, exist_ok=True)
                open(os.path.join(d, 'patch.diff'), 'w').write(diff)
                shutil.copy(os.path.join(dd, 'demo.py'), d)
                shutil.copy(os.path.join(dd, 'demo.sh'), d)
                json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']},
                          open(os.path.join(d, 'meta.json'), 'w'), indent=1)
                if '--check' in sys.argv:
                    c = sh(['python3-vt', os.path.join(HERE, 'check.py'), s['property'], 'quick', '--repo', repo], HERE, 900)
                    print('   check exit', c.returncode, c.stdout[-700:].replace('\n', '\n      '))
        finally:
            subprocess.run(['rm', '-rf', tmp])


main()
