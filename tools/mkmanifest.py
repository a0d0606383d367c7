#!/usr/bin/env python3
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'harness'))
sys.dont_write_bytecode = True
from registry import PROPS
NA = {}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         checks=[dict(property=i, quick_cmd='python3 harness/check.py %s quick' % i,
                      thorough_cmd='python3 harness/check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
                      technique=PROPS[i]['technique'], level='model_checking', level_note=PROPS[i]['note']) for i in ids if i in PROPS],
         not_applicable=[dict(property=i, reason=NA.get(i, 'check not built yet')) for i in ids if i not in PROPS],
         notes='TLA+ (TLC) specification in spec/, conformance harness in harness/; see DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
