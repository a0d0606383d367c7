#!/usr/bin/env python3
"""Sensitivity test: mut.py LIST.json  -- each entry [ids, file, old, new]; applies the change to a scratch
copy of /repo and runs the quick checks of the ids against it.  Development aid only."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
for ids, f, old, new in json.load(open(sys.argv[1])):
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        shutil.copytree(os.environ.get('VERIF_REPO', '/repo') + '/CHECLabPy', d + '/CHECLabPy', ignore=shutil.ignore_patterns('__pycache__'))
        p = os.path.join(d, 'CHECLabPy', f)
        s = open(p).read()
        if old not in s:
            print('NOT FOUND', f, repr(old)[:80]); continue
        open(p, 'w').write(s.replace(old, new, 1))
        for i in ids.split(','):
            r = subprocess.run([sys.executable, os.path.join(V, 'harness/check.py'), i, 'quick'],
                               env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            cl = [l.split('clause ')[1].split(' of ')[0] for l in r.stdout.splitlines() if 'clause ' in l]
            print('%-8s' % {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERR%d' % r.returncode), i, f, repr(new)[:70], '|', '; '.join(cl)[:150],
                  r.stderr[-300:] if r.returncode not in (0, 1) else '', flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
