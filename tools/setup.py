#!/usr/bin/env python3
"""Nothing to build: parses every specification so that a broken one is noticed early."""
import os, subprocess, sys, tempfile, shutil
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
S = os.path.join(V, 'spec')
d = tempfile.mkdtemp()
rc = 0
for f in os.listdir(S):
    if f.endswith('.tla'):
        shutil.copy(os.path.join(S, f), d)
mods = sorted(f for f in os.listdir(d) if f.endswith('.tla'))
p = subprocess.run(['java', '-Djava.io.tmpdir=' + d, '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar',
                    'tla2sany.SANY'] + mods, cwd=d, capture_output=True, text=True)
if p.returncode or 'Error' in p.stdout:
    print(p.stdout[-3000:], p.stderr[-2000:])
    rc = 1
shutil.rmtree(d)
print('%d specification modules parsed' % len(mods))
sys.exit(rc)
