#!/usr/bin/env python3
"""Which lines each planted bug changes: of the original repository, or added by a fix."""
import os, re, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = '/repo'
base = subprocess.run(['git', '-C', repo, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]
for d in sorted(os.listdir(here + '/seeded')):
    p = '%s/seeded/%s/patch.diff' % (here, d)
    own = orig = 0
    f = None
    n = 0
    for l in open(p, encoding='utf-8'):
        if l.startswith('--- '):
            f = l[6:].strip()
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') :
            b = subprocess.run(['git', '-C', repo, 'blame', '-l', '-L', '%d,%d' % (n, n), '--', f], capture_output=True, text=True).stdout
            if b.startswith('^'):
                orig += 1
            else:
                own += 1
            n += 1
        elif l.startswith(' '):
            n += 1
    ok = subprocess.run(['git', '-C', repo, 'apply', '--check', p], capture_output=True).returncode == 0
    print('%-45s original %d own %d%s' % (d, orig, own, '' if ok else ' DOES NOT APPLY'))
