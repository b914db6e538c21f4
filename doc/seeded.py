"""Apply each planted bug (or those named) on a copy of /repo and run the check of its property: who is caught."""
import glob, json, os, shutil, subprocess, sys
W = '/tmp/sd'
R = '/verif/doc/seeded_results.json'
res = json.load(open(R)) if os.path.exists(R) else {}
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    d = '/verif/seeded/' + i
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree('/repo', W, symlinks=True, ignore=shutil.ignore_patterns('__pycache__', 'build'))
    r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=W, capture_output=True, text=True)
    if r.returncode:
        print(i, 'DOES NOT APPLY', r.stderr[:200])
        continue
    p = json.load(open(d + '/meta.json'))['property']
    r = subprocess.run(['./check.sh', p], cwd='/verif', env=dict(os.environ, LGR_REPO=W, VERIF_FAILFAST='1'), capture_output=True, text=True)
    res[i] = 'caught' if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout else 'MISSED rc=%d' % r.returncode
    print(i, res[i], flush=True)
    res = {k: v for k, v in sorted(res.items()) if os.path.exists('/verif/seeded/' + k)}
    json.dump(res, open(R, 'w'), indent=1)
shutil.rmtree(W, ignore_errors=True)
