#!/usr/bin/env python3
"""DESIGN.md = design/head.md + one section per property (design/props.py and the registry) + planted bugs + design/tail.md"""
import glob, json, os, runpy, sys
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, V + '/harness'); sys.dont_write_bytecode = True
from registry import PROPS
T = runpy.run_path(V + '/design/props.py')['T']
titles = {json.loads(l)['id']: json.loads(l)['title'] for l in open(V + '/properties.jsonl')}
out = [open(V + '/design/head.md').read().rstrip(), '']
import textwrap
w = lambda s, p='', q='  ': textwrap.fill(s, 110, initial_indent=p, subsequent_indent=q)
for i in sorted(PROPS):
    P = PROPS[i]
    out += ['### %s %s' % (i, titles[i]), '', w(T[i][0], '- Specified: '), w(T[i][1], '- Oracle and observation: '), w(P['note'], '- Bounds: ')]
    for p in P['parts']:
        s = 'spec/%s.tla' % p['trace'].replace('Trace_', '')
        mc = ', '.join('%s (%s)' % (m['name'], ', '.join(m.get('inv', []) + m.get('prop', []))) for m in p.get('mc', []))
        gen = ', '.join(g['name'] for g in p.get('gen', []))
        out.append(w('%s, driver harness/drivers/%s.py%s%s; clauses: %s' % (s, p['driver'], '; models: ' + mc if mc else '', '; generated histories: ' + gen if gen else '',
                                                                         ', '.join(p['clauses'])), '- Files: '))
    out.append('')
out += ['## Planted bugs', '', 'Every one is caught by the quick check of its property (confirmed with `tools/seed.py`, which also confirms that the demonstration',
        'passes without and fails with the change, that it builds and that the stable tests pass).', '', '| bug | property | needs |', '|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    out.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs']))
out += ['', open(V + '/design/tail.md').read().rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
print(len(out), 'lines')
