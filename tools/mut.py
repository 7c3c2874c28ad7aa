"""mut.py FILE [names]: FILE defines MUTS = [(name, property, [(file, old, new)], expected)]; expected 'caught' or 'quiet'.

Runs the property's quick check on a scratch copy of /repo with each edit (development aid; not used by any check)."""
import os
import runpy
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    muts = runpy.run_path(sys.argv[1])['MUTS']
    only = [a for a in sys.argv[2:] if not a.startswith('-')]
    bad = 0
    for name, prop, edits, want in muts:
        if only and name not in only:
            continue
        tmp = tempfile.mkdtemp(prefix='mut-')
        try:
            repo = os.path.join(tmp, 'repo')
            subprocess.run(['cp', '-a', '/repo', repo], check=True)
            ok = True
            for f, old, new in edits:
                p = os.path.join(repo, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(name, 'EDIT does not match once', t.count(old), repr(old[:70]))
                    ok = False
                    break
                open(p, 'w').write(t.replace(old, new))
            if not ok:
                continue
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', TZ='UTC')
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-o', 'addopts=', 'tests'], cwd=repo, env=env,
                               capture_output=True, text=True).returncode
            for p in prop.split(','):
                c = subprocess.run(['python3-vt', os.path.join(HERE, 'check.py'), p, 'quick', '--repo', repo] + (['-v'] if '-v' in sys.argv else []),
                                   cwd=HERE, capture_output=True, text=True, env=env)
                got = 'caught' if c.returncode == 1 else 'quiet' if c.returncode == 0 else 'exit %d' % c.returncode
                flag = '' if got == want else '   <<<<<<'
                bad += got != want
                print('%-34s %s tests=%d %s%s' % (name, p, t, got, flag))
                tail = [x for x in c.stdout.splitlines() if not x.startswith('failing input')] if got == 'caught' or flag else c.stdout.splitlines()[-1:]
                print('      ' + '\n      '.join(x[:230] for x in tail[-12:]))
                sys.stdout.flush()
        finally:
            subprocess.run(['rm', '-rf', tmp])
    print('unexpected:', bad)


main()
