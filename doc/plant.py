"""
Keep a planted bug: plant(id, property, edits, demo, needs, breaks).
edits: [(file, old, new)]; demo: python source run with cwd = the repository (exit 0 when the property holds).
Everything is confirmed in a scratch copy under /tmp/pl (removed afterwards); then the checks of the property are run on it.
"""
import json, os, shutil, subprocess, sys, textwrap

W = '/tmp/pl'
PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
HEAD = '''import os, sys
sys.path.insert(0, os.getcwd())
import logging
logging.disable(logging.CRITICAL)


def icu():
    import glob
    from munidata.database import PICUDatabase
    from munidata.manager import UnicodeDataVersionManager
    lib = lambda n: sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libicu%s.so.[0-9]*' % n), key=len)[0]
    return UnicodeDataVersionManager(PICUDatabase).register(None, lib('uc'), lib('i18n'), lib('uc').rsplit('.', 1)[1])

'''


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def plant(id, prop, edits, demo, needs, breaks, checks=None):
    d = '/verif/seeded/' + id
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree('/repo', W, symlinks=True)
    try:
        src = HEAD + textwrap.dedent(demo)
        dd = '/tmp/pl_demo'
        shutil.rmtree(dd, ignore_errors=True)
        os.makedirs(dd)
        open(dd + '/demo.py', 'w').write(src)
        open(dd + '/demo.sh', 'w').write(SH)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        r = run(['bash', dd + '/demo.sh'], cwd=W, env=env)
        if r.returncode:
            print(id, 'demo FAILS on clean:', r.stdout[-500:], r.stderr[-1500:])
            return False
        for f, o, n in edits:
            s = open(W + '/' + f).read()
            if s.count(o) != 1:
                print(id, f, 'count', s.count(o), o)
                return False
            open(W + '/' + f, 'w').write(s.replace(o, n))
        diff = run(['git', 'diff'], cwd=W).stdout
        r = run(['bash', dd + '/demo.sh'], cwd=W, env=env)
        if r.returncode == 0:
            print(id, 'demo does not see the bug', r.stdout[-500:])
            return False
        print(id, 'demo:', (r.stdout + r.stderr).strip().splitlines()[-1][:200])
        # removed lines must be original
        base = run(['git', 'log', '--format=%h'], cwd=W).stdout.split()[-1]
        t = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--doctest-modules', '-x', '--timeout=300'], cwd=W, env=env)
        last = t.stdout.strip().splitlines()[-1]
        print(id, 'tests:', last)
        if 'failed' in last or 'error' in last:
            print([l for l in t.stdout.splitlines() if l.startswith('FAILED')])
            return False
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(src)
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        run(['find', W, '-name', '__pycache__', '-prune', '-exec', 'rm', '-rf', '{}', '+'])
        for c in checks or [prop]:
            r = run(['./check.sh', c], cwd='/verif', env=dict(os.environ, LGR_REPO=W))
            out = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(id, c, 'rc', r.returncode, len(out), 'violations', (r.stdout + r.stderr).strip().splitlines()[-1][:160])
        return True
    finally:
        shutil.rmtree(W, ignore_errors=True)
