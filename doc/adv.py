"""
Try hand-written changes: python doc/adv.py FILE [JOBS]; FILE is Python which defines CASES = [(id, [(file, old, new)...], 'C01 C02')].
Prints, for each: whether the repository's tests see it, and which checks do.
"""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'


def one(c):
    id, edits, checks = c
    w = '/tmp/adv/' + id.replace('/', '_')
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    try:
        for f, o, n in edits:
            s = open(w + '/' + f).read()
            if s.count(o) != 1:
                return id, 'EDIT count %d: %r' % (s.count(o), o[:80])
            open(w + '/' + f, 'w').write(s.replace(o, n))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
        t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--doctest-modules', '-x'], cwd=w, env=env, capture_output=True, text=True)
        last = t.stdout.strip().splitlines()[-1]
        if 'failed' in last or 'error' in last:
            return id, 'tests see it: ' + ' '.join(l for l in t.stdout.splitlines() if l.startswith(('FAILED', 'ERROR')))[:150]
        for ch in checks.split():
            r = subprocess.run(['./check.sh', ch], cwd='/verif', env=dict(env, LGR_REPO=w, VERIF_FAILFAST='1', VERIF_WORKERS='3'), capture_output=True, text=True)
            if r.returncode == 1:
                return id, 'caught by ' + ch
            if r.returncode:
                return id, 'ERROR in %s: %s' % (ch, r.stderr[-300:])
        return id, '**MISSED** by ' + checks
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    with ThreadPoolExecutor(int(sys.argv[2]) if len(sys.argv) > 2 else 3) as ex:
        for r in ex.map(one, ns['CASES']):
            print('%-40s %s' % r, flush=True)
