#!/usr/bin/env python3
"""Make and confirm planted bugs:  seed.py DEFS.py [id ...]
DEFS.py defines SEEDS = [dict(id, property, needs, what, edits=[(file, old, new)], demo=<python>, files={name: text})].
For each: writes /verif/seeded/<id>/ and confirms in a scratch copy of /repo that the demo passes without the
change, fails with it, the package builds and the stable tests still pass, then runs the property's quick check."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig')
SH = ('#!/bin/bash\n# cwd: the repository. Exit 0: behaves as promised; non-zero: it does not.\n'
      'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
      'D="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD:$D"\n'
      'exec /opt/venv/bin/python -W ignore "$D/demo.py"\n')

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=ENV, **kw)

defs = runpy.run_path(sys.argv[1])['SEEDS']
want = set(sys.argv[2:])
for s in defs:
    if want and s['id'] not in want:
        continue
    d = tempfile.mkdtemp(prefix='seed_')
    try:
        out = os.path.join(V, 'seeded', s['id'])
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + '/demo.sh', 'w').write(SH); os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        for n, t in s.get('files', {}).items():
            os.makedirs(os.path.dirname(os.path.join(out, n)) or '.', exist_ok=True)
            open(os.path.join(out, n), 'w').write(t)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(out + '/meta.json', 'w'), indent=1)
        subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
        subprocess.run('git -C /repo archive HEAD | tar x -C %s' % d, shell=True, check=True)
        sh(['git', 'init', '-q'], d); sh(['git', 'add', '-A'], d)
        base = sh(['bash', out + '/demo.sh'], d, timeout=300)
        for f, old, new in s['edits']:
            p = os.path.join(d, 'CHECLabPy', f); t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh(['git', 'diff'], d).stdout
        open(out + '/patch.diff', 'w').write(diff)
        ok = subprocess.run(['git', '-C', '/repo', 'apply', '--check', out + '/patch.diff']).returncode == 0
        bug = sh(['bash', out + '/demo.sh'], d, timeout=300)
        t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'CHECLabPy/core/tests/test_sprectrum_fitter.py',
                'CHECLabPy/stats/tests/test_pdf.py', '--deselect', 'CHECLabPy/core/tests/test_sprectrum_fitter.py::test_spectrum_fitter_config'], d, timeout=600)
        imp = sh([PY, '-m', 'compileall', '-q', 'CHECLabPy'], d).returncode == 0
        r = subprocess.run([sys.executable, V + '/harness/check.py', s['property'], 'quick'],
                           env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        cl = [l.split('clause ')[1].split(' of ')[0] for l in r.stdout.splitlines() if 'clause ' in l]
        good = base.returncode == 0 and bug.returncode != 0 and t.returncode == 0 and ok and imp
        print('%-5s %-28s %s %s' % ('ok' if good else 'BAD', s['id'], {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERR'), '; '.join(cl)[:120]), flush=True)
        if not good:
            print('   base', base.returncode, base.stderr[-400:], '\n   bug', bug.returncode, bug.stderr[-200:], '\n   tests', t.returncode, t.stdout[-300:], 'apply', ok)
        else:
            print('      demo says:', (bug.stderr.strip().splitlines() or ['-'])[-1][:150])
        if r.returncode not in (0, 1):
            print(r.stderr[-400:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
